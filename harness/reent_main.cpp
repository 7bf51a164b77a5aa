// Re-entrancy: every operation is interrupted at every instruction and other
// operations run to completion there (a stateless exploration of all schedules
// with one preemption, on the real machine code), plus every ordered pair of
// operations, plus every operation with the registers and the dead stack
// holding different rubbish.  No model: the oracle is the operation's own
// result in a fresh process.
#include "kv.h"
#include "ref.h"
#include "hx.h"
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
void api_reg_0(KernTab &); void api_reg_1(KernTab &); void api_reg_2(KernTab &); void reent_reg(KernTab &);
__attribute__((weak)) void kv_reg_0(KernTab &); __attribute__((weak)) void kv_reg_1(KernTab &); __attribute__((weak)) void kv_reg_2(KernTab &);
const char *kv_ext();
extern "C" void vf_poison(const void *);
extern "C" char __executable_start, etext, __data_start, _end;
typedef unsigned char B8;
enum { Q = 3, RS = 4096, MAXK = 60000 };
struct Op { Kern k; int cs; Ty t; std::string key; }; // cs: case of a memory operation, -1 otherwise
static std::vector<Op> ops;
static B8 *inputs;                                      // [type][profile][a b c m]
static B8 *in(Ty t, int q, int w) { return inputs + (((int)t * Q + q) * 4 + w) * 8192; }
struct Res { B8 r[Q][RS]; int st[Q]; };                 // st: 1 ok, 2 touches static memory, 0 crashed
static Res *rfs;
// state of the exploration; lives outside .data/.bss
struct G {
  int mode;                                             // 0 off, 1 trace, 2 break at position, 3 step to position
  int on, n, target, occ, seen, fired, over;
  uintptr_t fn, rsp0, addr; B8 saved;
  int B[64], nB, badB, blocked;
  uintptr_t trace[MAXK];
  B8 ra[RS], rb[RS];
};
static G *g;
static void run(const Op &o, int q, B8 *r) {
  bool log = o.k.kind == K_LOG1 || o.k.kind == K_LOG2, red = o.k.kind == K_RED;
  const B8 *a = in(o.t, q, log ? 3 : 0), *b = in(o.t, q, log || red ? 3 : 1), *c = in(o.t, q, 2);
  if (o.k.kind == K_SEL) a = in(o.t, q, 3);
  if (red && !strcmp(o.k.api, "extra") && strcmp(o.k.op, "aligned")) b = in(o.t, q, 1);
  if (red) { long n = o.cs == 8 ? q & 1 : o.cs == 12 ? q - 1 : 2; o.k.fn(a, b, c, r, n, o.cs); return; }
  static const int sh[] = {1, 0, -1};
  int bt = bits(o.t), p = o.k.kind == K_SHIFT ? (sh[q] == 1 ? 1 : sh[q] == 0 ? bt / 2 : bt - 1) : 0;
  o.k.fn(a, b, c, r, o.k.lanes ? o.k.lanes : 1, p);
}
static void clean(B8 *r) { memset(r, 0xEE, RS); }
static void runBs() { // what happens at the preemption: complete calls of others
  for (int i = 0; i < g->nB; i++) {
    int b = g->B[i] / Q, q = g->B[i] % Q;
    clean(g->rb);
    try { run(ops[b], q, g->rb); } catch (...) { g->blocked++; continue; } // cannot proceed: not a schedule
    if (memcmp(g->rb, rfs[b].r[q], RS)) { g->badB = g->B[i] + 1; return; }
  }
}
static void trap(int, siginfo_t *, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_;
  greg_t *r = uc->uc_mcontext.gregs;
  uintptr_t ip = (uintptr_t)r[REG_RIP];
  if (g->mode == 1 || g->mode == 3) { // single stepping; ip is the next instruction
    if (!g->on) { if (ip == g->fn) { g->on = 1; g->rsp0 = (uintptr_t)r[REG_RSP]; } else return; }
    else if ((uintptr_t)r[REG_RSP] > g->rsp0) { g->on = 0; r[REG_EFL] &= ~0x100L; return; }
    if (g->mode == 1) { if (g->n < MAXK) g->trace[g->n++] = ip; else g->over = 1; return; }
    if (g->n++ == g->target) { r[REG_EFL] &= ~0x100L; g->fired = 1; runBs(); }
    return;
  }
  if (g->mode == 2) {
    if (ip - 1 == g->addr) { // breakpoint hit
      *(volatile B8 *)g->addr = g->saved;
      r[REG_RIP] = (greg_t)g->addr;
      if (g->seen++ == g->occ) { g->fired = 1; g->mode = 0; runBs(); return; }
      g->mode = 4; r[REG_EFL] |= 0x100;
    }
    return;
  }
  if (g->mode == 4) { *(volatile B8 *)g->addr = 0xCC; g->mode = 2; r[REG_EFL] &= ~0x100L; return; }
  r[REG_EFL] &= ~0x100L;
}
static bool writable() {
  uintptr_t lo = (uintptr_t)&__executable_start & ~4095ul, hi = ((uintptr_t)&etext + 4095) & ~4095ul;
  return mprotect((void *)lo, hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC) == 0;
}
static void stepon() { __asm__ volatile("pushfq\n\torl $0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc"); }
static void stepoff() { __asm__ volatile("pushfq\n\tandl $~0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc"); }
static void mktrace(int A, int q) {
  g->on = g->n = g->over = 0; g->fn = (uintptr_t)ops[A].k.fn; clean(g->ra);
  g->mode = 1;
  stepon(); run(ops[A], q, g->ra); stepoff();
  g->mode = 0;
}
// A (operands q) with the calls of g->B at position k; 0 ok
static int preempt(int A, int q, int k, bool bp) {
  g->fired = g->badB = g->seen = 0; clean(g->ra);
  if (bp) {
    g->addr = g->trace[k]; g->occ = 0;
    for (int i = 0; i < k; i++) g->occ += g->trace[i] == g->addr;
    g->saved = *(volatile B8 *)g->addr; g->mode = 2;
    *(volatile B8 *)g->addr = 0xCC;
    run(ops[A], q, g->ra);
    *(volatile B8 *)g->addr = g->saved;
  } else {
    g->on = g->n = 0; g->target = k; g->fn = (uintptr_t)ops[A].k.fn; g->mode = 3;
    stepon(); run(ops[A], q, g->ra); stepoff();
  }
  g->mode = 0;
  if (g->badB) return 2;
  return memcmp(g->ra, rfs[A].r[q], RS) ? 1 : 0;
}
static __attribute__((noinline)) void rubbish(int v) {
  volatile B8 s[16384];
  for (size_t i = 0; i < sizeof s; i++) s[i] = (B8)(v == 2 ? i * 37 : v ? 0x3F : 0xFF);
  B8 x[64];
  for (int i = 0; i < 64; i++) x[i] = (B8)(v == 2 ? i * 59 + 1 : v ? 0x40 : 0xFF);
  vf_poison(x);
}
static unsigned csr() { unsigned m; __asm__ volatile("stmxcsr %0" : "=m"(m)); return m & 0xFFC0; }
static unsigned x87() { struct { unsigned short cw, a, sw, b, tag, c; unsigned r[4]; } e; __asm__ volatile("fnstenv %0\n\tfldenv %0" : "=m"(e)); return (unsigned)e.cw << 16 | e.tag; }
static void build(int part, int parts) {
  KernTab tab;
  api_reg_0(tab); api_reg_1(tab); api_reg_2(tab);
  reent_reg(tab);
  size_t nb = tab.size();
  if (kv_reg_0) kv_reg_0(tab);
  if (kv_reg_1) kv_reg_1(tab);
  if (kv_reg_2) kv_reg_2(tab);
  std::map<std::string, int> len;
  for (auto &k : tab) if (!strcmp(k.op, "add") && !strcmp(k.api, "base")) len[k.type] = k.lanes;
  for (size_t i = 0; i < tab.size(); i++) {
    Kern &k = tab[i];
    if (i >= nb && strcmp(k.api, "scalar")) continue;
    std::string op = k.op, base = std::string(kv_ext()) + ":" + k.op + ":" + k.type + ":" + k.totype + ":" + k.api;
    Op o; o.k = k; o.cs = -1; o.t = tyof(k.type);
    if (k.kind == K_RED && !strcmp(k.api, "extra")) { o.cs = k.lanes; o.key = base + std::to_string(o.cs); ops.push_back(o); continue; }
    if (op == "mem") { for (int p = 0; p < 25; p++) if (p != 23) { o.cs = p; o.key = base + std::to_string(p); ops.push_back(o); } continue; }
    o.key = base;
    ops.push_back(o);
  }
  (void)part; (void)parts;
}
static W val(Ty t, int q, int w, int i) {
  if (w == 3) return (i * (q + 2) + i / 3 + q) % 3 == 0 ? 0 : one(t);
  static std::map<int, std::vector<W> > al;
  std::vector<W> &v = al[(int)t];
  if (v.empty()) v = alpha(t, 0);
  if (!isflt(t)) {
    if (w == 1) return (W)((i * 7 + q * 3) % 100 + 1);
    return q == 1 ? v[(i * 5 + w) % v.size()] : ((W)(i + 1 + w * 11) * (q ? 0x9E3779B97F4A7C15ull : 0x0001020304050607ull)) & mask(t);
  }
  if (q == 1) return v[(i * 3 + w * 7) % v.size()];
  if (q == 2) return rnd(t, (i % 2 ? -1 : 1) * (100.0 + i * 37.25 + w * 3));
  return rnd(t, ((i + w * 5) % 19 - 7) * 0.375 + 0.0625 + i * 0.01);
}
template <typename F> static int child(F f) { // exit status of f() in a process of its own
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) return 255;
  if (!p) { int r = f(); fflush(stdout); _exit(r); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {}
  return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st) % 50;
}
struct Cnt { unsigned long long st, tr, tc, bad, skip; };
int main(int argc, char **argv) {
  hx_init(argc, argv);
  int part = 0, parts = 1;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) { part = atoi(argv[++i]); parts = atoi(argv[++i]); }
  build(part, parts);
  int N = (int)ops.size();
  size_t isz = 11 * Q * 4 * 8192;
  int MF = MAP_SHARED | MAP_ANONYMOUS;
  inputs = (B8 *)mmap(0, isz, PROT_READ | PROT_WRITE, MF, -1, 0);
  rfs = (Res *)mmap(0, sizeof(Res) * (size_t)N, PROT_READ | PROT_WRITE, MF, -1, 0);
  g = (G *)mmap(0, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  Cnt *cn = (Cnt *)mmap(0, sizeof(Cnt), PROT_READ | PROT_WRITE, MF, -1, 0);
  int *shared = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MF, -1, 0);
  if (inputs == MAP_FAILED || rfs == MAP_FAILED || g == MAP_FAILED || cn == MAP_FAILED) { fprintf(stderr, "no memory\n"); return 3; }
  for (int t = 0; t < 11; t++) for (int q = 0; q < Q; q++) for (int w = 0; w < 4; w++) for (int i = 0; i < 8192 / TSZ[t]; i++) stw(in((Ty)t, q, w) + i * TSZ[t], (Ty)t, val((Ty)t, q, w, i));
  mprotect(inputs, isz, PROT_READ);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, 0);
  size_t dsz = (size_t)(&_end - &__data_start);
  B8 *snap = (B8 *)mmap(0, dsz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  // 1. each operation alone in a fresh process
  for (int i = 0; i < N; i++) {
    if (child([&] {
      for (int q = 0; q < Q; q++) {
        int rc = child([&] {
          hx_case(ops[i].key);
          for (int v = 0; v < 3; v++) {
            clean(g->ra);
            unsigned m0 = csr(), e0 = x87();
            rubbish(v);
            memcpy(snap, &__data_start, dsz);
            run(ops[i], q, g->ra);
            bool touched = memcmp(snap, &__data_start, dsz) != 0;
            unsigned m1 = csr(), e1 = x87();
            if (!v) { memcpy(rfs[i].r[q], g->ra, RS); rfs[i].st[q] = 1; }
            if (touched) rfs[i].st[q] = 2;
            cn->tr++;
            if (i % parts == part && (m0 != m1 || e0 != e1)) { hx_bad(ops[i].key, "operands %d: floating-point control changed, MXCSR 0x%x to 0x%x, x87 0x%x to 0x%x", q, m0, m1, e0, e1); cn->bad++; }
            if (i % parts == part && memcmp(rfs[i].r[q], g->ra, RS)) { hx_bad(ops[i].key, "operands %d: the result depends on what registers and stack held before, or on a previous call", q); cn->bad++; return 0; }
          }
          return 0;
        });
        if (rc == 44) return 44;
      }
      return 0;
    }) == 44) return 44;
  }
  std::vector<int> live;
  for (int i = 0; i < N; i++) { bool ok = true; for (int q = 0; q < Q; q++) ok = ok && rfs[i].st[q]; if (ok) live.push_back(i); else if (i % parts == part && (hx_only.empty() || ops[i].key == hx_only)) { hx_bad(ops[i].key, "crash"); cn->bad++; } }
  for (int i : live) for (int q = 0; q < Q; q++) { uint64_t h = i; for (int j = 0; j < RS; j += 8) { uint64_t x; memcpy(&x, rfs[i].r[q] + j, 8); h = hx_mix(h, x); } hx_seen(h); }
  int M = (int)live.size(), maxocc = hx_tier ? 64 : 2, others = hx_tier ? 40 : 6, smp = 0;
  for (int x = 0; x < M; x++) {
    int A = live[x];
    if (x % parts != part || !hx_case(ops[A].key)) continue;
    bool stat = rfs[A].st[0] == 2 || rfs[A].st[1] == 2 || rfs[A].st[2] == 2;
    // 2. A before every other operation
    int rc = child([&] {
      for (int y = 0; y < M; y++) {
        int B = live[(x + y) % M], qa = y % Q, qb = (y / Q + 1) % Q;
        clean(g->ra); clean(g->rb);
        run(ops[A], qa, g->ra); run(ops[B], qb, g->rb);
        cn->st++; cn->tr += 2; cn->tc++;
        bool ba = memcmp(g->ra, rfs[A].r[qa], RS), bb = memcmp(g->rb, rfs[B].r[qb], RS);
        if (ba || bb) { hx_bad(ops[A].key, "called before %s (operands %d, %d): result of the %s call differs from its result alone", ops[B].key.c_str(), qa, qb, ba ? "first" : "second"); cn->bad++; return 1; }
      }
      return 0;
    });
    if (rc == 44) return 44;
    // 3. every preemption point
    rc = child([&] {
      bool bp = writable();
      for (int q = 0; q < Q; q++) {
        shared[0] = 0;
        mktrace(A, q);
        if (!g->n) return 9;
        if (q == 0 && smp++ == 0 && A % 97 == part) printf("SAMPLE %s: %d instructions, each a preemption point\n", ops[A].key.c_str(), g->n);
        std::map<uintptr_t, int> oc;
        for (int k = 0; k < g->n; k++) {
          if (oc[g->trace[k]]++ >= maxocc) { cn->skip++; continue; }
          g->nB = 0;
          for (int j = 1; j < Q; j++) g->B[g->nB++] = A * Q + (q + j) % Q;
          for (int j = 0; j < others; j++) g->B[g->nB++] = live[(size_t)(x + 1 + k * others + j) % M] * Q + (q + k + j) % Q;
          int r;
          if (stat) { r = child([&] { return preempt(A, q, k, bp); }); if (r > 2 && r != 255) r = 3; }
          else r = preempt(A, q, k, bp);
          if (!stat && !g->fired && !r) { cn->skip++; continue; }
          cn->st++; cn->tr += 1 + g->nB; cn->tc++;
          if (r) {
            hx_bad(ops[A].key, "operands %d, preempted at instruction %d (%+ld from its entry) by %d complete calls: %s", q, k, (long)(g->trace[k] - g->fn), g->nB,
                   r == 2 ? stat ? "an interrupting call returns a wrong result" : (ops[(g->badB - 1) / Q].key + " returns a wrong result there").c_str() : r == 1 ? "its result differs from its result alone" : "crash");
            cn->bad++;
            return 1;
          }
        }
      }
      return 0;
    });
    if (rc == 44) return 44;
    if (rc == 43 || rc >= 200) cn->bad++;
    if (rc == 9) { fprintf(stderr, "single stepping does not work here\n"); return 3; }
  }
  hx_states = cn->st; hx_trans = cn->tr; hx_traces = cn->tc; hx_nbad = cn->bad;
  printf("SAMPLE %s: %d operations; %llu loop iterations beyond the bound not preempted\n", kv_ext(), M, cn->skip);
  return hx_done();
}
