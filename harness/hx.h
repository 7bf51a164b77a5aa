// Common part of all harness programs: case selection, counters, crash and
// hang capture. Protocol on stdout (one line each):
//   BAD case=<key> <detail>     a violated case (at most 8 printed per key)
//   SAMPLE <text>               an example of what was explored
//   COUNT states=.. trans=.. traces=.. distinct=.. bad=..
// "--only <key>" restricts the run to one case: that is the replay command.
#ifndef HX_H
#define HX_H
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>
static std::string hx_only;
static int hx_tier = 0; // 0 quick, 1 thorough
static unsigned long long hx_states, hx_trans, hx_traces, hx_nbad;
static std::unordered_set<uint64_t> hx_dist;
static char hx_cur[512];
static int hx_limit = 0;
// an instruction this machine lacks is not the code's fault; a trap compiled
// into the program (ud2) is
static void hx_sig(int s, siginfo_t *si, void *) {
  bool lacks = s == SIGILL && !(si && si->si_addr && ((const unsigned char *)si->si_addr)[0] == 0x0f && ((const unsigned char *)si->si_addr)[1] == 0x0b);
  char b[700];
  int n = snprintf(b, sizeof b, "\nBAD case=%s %s (signal %d)\n", hx_cur, s == SIGALRM ? "does not terminate" : "crash", s);
  if (write(1, b, (size_t)n) < 0) {}
  _exit(lacks ? 44 : 43);
}
static inline void hx_seen(uint64_t h) { if (hx_dist.size() < 100000) hx_dist.insert(h); }
// begin a case; false when it is not selected
static inline bool hx_case(const std::string &key) {
  if (!hx_only.empty() && key != hx_only) return false;
  snprintf(hx_cur, sizeof hx_cur, "%s", key.c_str());
  if (hx_limit) alarm((unsigned)hx_limit);
  return true;
}
static void hx_bad(const std::string &key, const char *fmt, ...) {
  static std::map<std::string, int> cnt;
  hx_nbad++;
  if (cnt[key]++ >= 8) return;
  va_list ap;
  printf("BAD case=%s ", key.c_str());
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
  printf("\n");
  fflush(stdout);
}
static void hx_init(int argc, char **argv) {
  static char stk[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = stk; ss.ss_size = sizeof stk;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = hx_sig;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
  for (int s : sg) sigaction(s, &sa, 0);
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--only")) hx_only = argv[++i];
    else if (!strcmp(argv[i], "--thorough")) hx_tier = 1;
    else if (!strcmp(argv[i], "--limit")) hx_limit = atoi(argv[++i]);
  }
}
static int hx_done() {
  alarm(0);
  printf("COUNT states=%llu trans=%llu traces=%llu distinct=%zu bad=%llu\n", hx_states, hx_trans, hx_traces, hx_dist.size(), hx_nbad);
  return 0;
}
static inline uint64_t hx_mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
#endif
