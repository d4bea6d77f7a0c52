// C01: the real parsers against the reference classifier, on every token string within the bounds.
#include "pp.h"
#include "spec.h"
#include "scale.h"
static void check(const SP::Spec &sp, const char *b, int n) {
  SP::Out o;
  H::stat("texts")++;
  if (!SP::classify(sp, b, n, o)) { H::stat("unspecified")++; return; }
  PP::parse(sp.lang, b, n, 1);
  H::stat("lines_compared") += o.n;
  bool bad = (int)PP::evs.size() != o.n; int i = 0;
  for (; !bad && i < o.n; i++) {
    auto &e = PP::evs[i];
    char c = e.ent[1] == 'b' ? 0 : e.ent[2] == 'o' && e.ent[3] == 'm' ? 1 : 2;
    if (c != o.k[i] || (e.lang != sp.lang && strcmp(e.lang, sp.lang))) bad = true;
  }
  if (bad) {
    static const char *K[] = {"blank", "comment", "code"};
    std::string want; for (int j = 0; j < o.n; j++) want += std::string(j ? "," : "") + K[(int)o.k[j]];
    H::viol(std::string(sp.lang), std::string(sp.lang) + "|" + H::esc(std::string(b, n)), "lines should be " + want + " but got " + PP::show());
  }
}
// a text of any size whose lines are those of the unit, times over
static void large(const char *lang, char mode, int K, const std::string &u, const std::string &t, const SC::Kinds &k) {
  PP::parse(lang, t.data(), t.size(), 1);
  size_t n = k.l.size(), want = SC::lines(mode, K, n), i = 0; H::stat("lines_compared") += want;
  bool bad = PP::evs.size() != want;
  for (; !bad && i < want; i++) { auto &e = PP::evs[i]; char c = e.ent[1] == 'b' ? 0 : e.ent[2] == 'o' && e.ent[3] == 'm' ? 1 : 2; if (c != k.l[SC::index(mode, K, n, i)].second || (e.lang != k.l[SC::index(mode, K, n, i)].first && strcmp(e.lang, k.l[SC::index(mode, K, n, i)].first))) { bad = true; break; } }
  if (bad) H::viol(lang, SC::name(lang, mode, K, u), "a text of " + std::to_string(t.size()) + " bytes: " + (PP::evs.size() != want ? std::to_string(PP::evs.size()) + " lines instead of " + std::to_string(want) : "line " + std::to_string(i + 1) + " is of another kind than in the unit"));
}
int main(int argc, char **argv) {
  H::init(argc, argv); PP::setup();
  if (H::replaying) {
    std::string lg, u; char m; int K; SC::Kinds ks; if (SC::parse_case(H::replay_case, lg, m, K, u)) { if (SC::unit_kinds(lg.c_str(), m, u, ks)) large(lg.c_str(), m, K, u, SC::make(m, K, u), ks); return H::done(); }
    size_t k = H::replay_case.find('|'); std::string t = H::unesc(H::replay_case.substr(k + 1));
    auto sp = SP::spec_of(H::replay_case.substr(0, k).c_str()); if (sp) check(*sp, t.data(), t.size()); return H::done();
  }
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  const char *only = getenv("C01_LANG");
  long budget = getenv("C01_BUDGET") ? atol(getenv("C01_BUDGET")) : th ? 60000000 : 4000000;
  char buf[512];
  for (auto &sp : SP::SPECS) {
    if (only && strcmp(only, sp.lang)) continue;
    for (int pass = 0; pass < 3; pass++) {
      // 0: whole delimiters; 1: single characters; 2: whole delimiters and every line ending
      auto T = SP::alphabet(sp, pass == 1);
      if (pass == 2) { T.push_back("\r"); T.push_back("\r\n"); T.push_back("\f"); T.push_back("\t"); T.push_back("\xc3"); T.push_back("\x02"); }
      int k = T.size(), depth = 0; long tot = 1, pw = 1, bud = pass == 2 ? budget / 4 : budget;
      while (tot + pw * k <= bud) { pw *= k; tot += pw; depth++; }
      if (H::shard == 0) { std::string key = std::string("depth_") + std::to_string(depth); H::stats[key]++; }
      long c = 0;
      std::function<void(int, int)> rec = [&](int d, int n) {
        if (d >= 2 || H::shard == 0) check(sp, buf, n);
        if (d == depth) return;
        for (int i = 0; i < k; i++) {
          if (d == 1 && c++ % H::nshards != H::shard) continue;
          memcpy(buf + n, T[i].data(), T[i].size()); rec(d + 1, n + T[i].size());
        }
      };
      rec(0, 0);
    }
    SC::all(sp.lang, SP::alphabet(sp, false), 2, th, large);
    if (H::shard == 0) H::stat("languages")++;
  }
  return H::done();
}
