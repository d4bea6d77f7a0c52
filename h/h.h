// Shared by the C++ harnesses: shards, the current case (for crash reports), statistics, violations.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>

namespace H {
inline char *status_map = nullptr;
inline const size_t STATUS = 65536;
inline int shard = 0, nshards = 1;
inline bool replaying = false;
inline std::string replay_case;
inline std::map<std::string, long long> stats;
inline int nviol = 0, max_viol = 40, nsample = 0, max_sample = 2;
inline std::map<std::string,int> viol_per_key;

inline void open_status() {
  const char *f = getenv("H_STATUS");
  if (!f) { status_map = (char *)calloc(1, STATUS); return; }
  int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, STATUS)) { perror("status"); exit(4); }
  status_map = (char *)mmap(0, STATUS, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
}
// The case about to be executed (kept short); cheap enough to call per case.
inline void set_case(const char *s, size_t n) {
  if (n > STATUS - 1) n = STATUS - 1;
  memcpy(status_map, s, n); status_map[n] = 0;
}
inline void set_case(const std::string &s) { set_case(s.data(), s.size()); }

inline std::string esc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
    else if (c == '\f') r += "\\f"; else if (c == '\\') r += "\\\\";
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += (char)c;
  }
  return r;
}
inline std::string unesc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
    char c = s[++i];
    if (c == 'n') r += '\n'; else if (c == 'r') r += '\r'; else if (c == 't') r += '\t'; else if (c == 'f') r += '\f';
    else if (c == 'x') { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    else r += c;
  }
  return r;
}
inline void viol(const std::string &key, const std::string &cas, const std::string &msg) {
  if (viol_per_key[key]++ >= 3) return;
  printf("VIOL\t%s\t%s\t%s\n", key.c_str(), cas.c_str(), msg.c_str()); fflush(stdout);
  ++nviol;
}
inline void sample(const std::string &s) { if (nsample++ < max_sample) { printf("SAMPLE\t%s\n", s.c_str()); } }
inline long long &stat(const char *k) { return stats[k]; }
inline void init(int argc, char **argv) {
  open_status();
  if (argc > 2 && !strcmp(argv[1], "replay")) { replaying = true; replay_case = argv[2]; return; }
  if (argc > 2) { shard = atoi(argv[1]); nshards = atoi(argv[2]); }
}
inline int done() {
  for (auto &s : stats) printf("STAT\t%s\t%lld\n", s.first.c_str(), s.second);
  printf("DONE\n"); fflush(stdout);
  return replaying && nviol ? 1 : 0;
}
// The text being parsed now; written to the status file only if the process dies on it.
struct Cur { const char *lang; const char *b; int n; const char *suffix; };
inline Cur cur{nullptr, nullptr, 0, ""};
inline volatile unsigned long progress = 0, seen_progress = 0;
inline void write_cur() { if (cur.lang) set_case(std::string(cur.lang) + "|" + esc(std::string(cur.b, cur.n)) + cur.suffix); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void on_crash(int s) { write_cur(); signal(s, SIG_DFL); raise(s); }
inline void on_tick(int) {
  if (progress != seen_progress) { seen_progress = progress; return; }
  write_cur();
  const char m[] = "HANG: the case does not finish\n"; (void)!write(2, m, sizeof m - 1); _exit(79);
}
// Reports a crash, or a case that runs for longer than `seconds`, with the text that caused it.
inline void guard(int seconds = 20) {
  static char stack[1 << 16];
  stack_t ss{}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, 0);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(write_cur);
  else for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) { struct sigaction a{}; a.sa_handler = on_crash; a.sa_flags = SA_ONSTACK; sigaction(s, &a, 0); }
  struct sigaction a{}; a.sa_handler = on_tick; a.sa_flags = SA_RESTART; sigaction(SIGALRM, &a, 0);
  if (replaying) { alarm(seconds); return; }
  itimerval t{}; t.it_interval.tv_sec = t.it_value.tv_sec = seconds; setitimer(ITIMER_REAL, &t, 0);
}
// A case that runs for longer than this many seconds is reported as a hang by the crash machinery.
inline void on_alarm(int) { const char m[] = "HANG: the case does not finish\n"; (void)!write(2, m, sizeof m - 1); _exit(79); }
inline void watchdog(int seconds) { signal(SIGALRM, on_alarm); alarm(seconds); }
}
