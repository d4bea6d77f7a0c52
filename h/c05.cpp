// C05: all sequences of two (and of three over fewer) parses; every parse must give what it gives in a process of its own.
#include "pp.h"
#include "tokens.h"
#include <sys/wait.h>
struct Op { const char *lang; std::string text; int count; uint64_t fresh; };
static std::vector<Op> ops;
static uint64_t run(const Op &o) {
  PP::parse(o.lang, o.text.data(), o.text.size(), o.count);
  uint64_t h = 1469598103934665603ull; auto add = [&](const char *s) { for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; h = (h ^ 255) * 1099511628211ull; };
  for (auto &e : PP::evs) { add(e.lang); add(e.ent); h = (h ^ (uint32_t)e.s) * 1099511628211ull; h = (h ^ (uint32_t)e.e) * 1099511628211ull; }
  return h;
}
static std::string name(const Op &o) { return std::string(o.lang) + (o.count ? "|" : "/") + H::esc(o.text); }
static void fresh(Op *o, int n) { // in a process of its own
  uint64_t *m = (uint64_t *)mmap(0, 8 * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < n; i++) {
    pid_t p = fork();
    if (!p) { setitimer(ITIMER_REAL, nullptr, nullptr); alarm(20); m[i] = run(o[i]); _exit(0); }
    int st; waitpid(p, &st, 0); H::progress++; if (st) { H::viol("alone:" + std::string(o[i].lang), name(o[i]), "parsing it alone fails with status " + std::to_string(st)); }
    o[i].fresh = m[i];
  }
  munmap(m, 8 * n);
}
static bool last(const std::vector<int> &s, bool tell) { // does the last of these parses give its own result, in a fresh process
  fflush(stdout); pid_t p = fork();
  if (!p) { for (size_t i = 0; i + 1 < s.size(); i++) run(ops[s[i]]); bool ok = run(ops[s.back()]) == ops[s.back()].fresh;
    if (!ok && tell) { FILE *f = fopen(getenv("C05_TELL") ? getenv("C05_TELL") : "/dev/null", "w"); if (f) fprintf(f, "%s", PP::show().c_str()); }
    _exit(ok ? 0 : 1); }
  int st; waitpid(p, &st, 0); return st == 0;
}
static void report(const std::vector<int> &s) {
  std::string c; for (int i : s) c += name(ops[i]) + ";;";
  std::string k = "history:" + std::string(ops[s.back()].lang); if (H::viol_per_key[k] >= 3) return;
  if (last(s, false)) { H::viol(k, c, "another result after these and the parses before them"); return; }
  H::viol(k, c, "the last parse gives another result than alone");
}
int main(int argc, char **argv) {
  H::init(argc, argv); PP::setup(); bool th = argc > 3 && !strcmp(argv[3], "thorough");
  if (H::replaying) {
    std::string c = H::replay_case; size_t k; std::vector<int> s;
    while ((k = c.find(";;")) != std::string::npos) { std::string o = c.substr(0, k); c = c.substr(k + 2); size_t b = o.find_first_of("|/"); ops.push_back({strdup(o.substr(0, b).c_str()), H::unesc(o.substr(b + 1)), o[b] == '|', 0}); s.push_back(s.size()); }
    for (auto &o : ops) for (auto l : ALL_LANGS) if (!strcmp(l, o.lang)) o.lang = l;
    fresh(ops.data(), ops.size()); if (!last(s, true)) report(s); return H::done();
  }
  std::vector<int> few;
  for (auto l : ALL_LANGS) {
    auto T = tokens_of(l, false); std::set<std::string> t = {"", "a", " ", "\n", "a\n", "a\n ", " a\r", "a\nb"};
    for (auto &x : T) { t.insert(x); t.insert(x + "a"); t.insert("a " + x); t.insert(x + "\n"); t.insert(x + "a\n b"); if (th) for (auto &y : T) { t.insert(x + y); t.insert(x + "\n" + y); } }
    size_t b = ops.size();
    for (auto &x : t) for (int c = 0; c < 2; c++) ops.push_back({l, x, c, 0});
    // for the sequences of three: an open line, the first two delimiters left open in both modes
    int d = 0; for (size_t i = b; i < ops.size(); i++) { auto &x = ops[i].text; if ((x == "a" && ops[i].count) || (d < (th ? 4 : 2) && x.size() > 1 && x.substr(x.size() - 3 < x.size() ? x.size() - 3 : 0) == "\n b" && isprint(x[0]) && x[0] != 'a' && x[0] != ' ' && (d++, 1))) few.push_back(i); }
  }
  fresh(ops.data(), ops.size());
  int n = ops.size();
  auto step = [&](int i) { H::stat("parses")++; return run(ops[i]) == ops[i].fresh; };
  for (int a = H::shard; a < n; a += H::nshards) for (int b = 0; b < n; b++) {
    if (!step(a)) report({b - 1 < 0 ? a : b - 1, a}); if (!step(b)) report({a, b});
  }
  for (size_t a = H::shard; a < few.size(); a += H::nshards) for (int b : few) for (int c : few) { step(few[a]); if (!step(b)) report({few[a], b}); if (!step(c)) report({few[a], b, c}); }
  if (H::shard == 0) { H::stat("ops") = n; H::stat("few") = few.size(); H::sample(name(ops[n / 3]) + ";;" + name(ops[n / 2]) + ";;"); }
  return H::done();
}
