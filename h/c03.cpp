// C03: invariants of the line reports, for every byte string and token string within the bounds.
#include "pp.h"
#include "tokens.h"
#include "scale.h"
static inline bool isnl(char c) { return c == '\n' || c == '\r' || c == '\f'; }
static inline bool isws(char c) { return c == ' ' || c == '\t' || c == '\v'; }
static std::set<std::string> known_lang;
// returns "" or the broken invariant
static inline bool isws(const char *lang, char c) { return isws(c) || (c == '$' && !strcmp(lang, "dcl")); /* DCL's prompt character */ }
static bool php_q = false;
static const char *verify(const char *lang, const char *b, int n) {
  int pos = 0; php_q = false;
  for (auto &e : PP::evs) {
    if (e.s < 0 || e.e > n || e.s >= e.e) return "range";
    if (e.s < pos) return "overlap";
    // known finding: the ? of a ?> that starts a line is left out of the report
    int upto = e.s;
    if (!strcmp(lang, "php") && upto > pos && b[upto - 1] == '?' && b[upto] == '>' && (upto - 1 == pos || isnl(b[upto - 2]) || isws(b[upto - 2]))) { upto--; php_q = true; }
    for (int i = pos; i < upto; i++) if (!isws(lang, b[i]) && !isnl(b[i])) return "lost-text";
    bool blank = true; int i = e.s;
    for (; i < e.e && !isnl(b[i]); i++) if (!isws(lang, b[i])) blank = false;
    if (i < e.e) { if (b[i] == '\r' && i + 1 < e.e && b[i + 1] == '\n') i++; i++; }
    if (i != e.e) return "several-lines";
    if (!isnl(b[e.e - 1]) && e.e != n) return "part-line";
    // the report starts with its line: only white space before it on the line
    for (int k = upto - 1; k >= pos && !isnl(b[k]); k--) if (!isws(lang, b[k])) return "part-line";
    char k = e.ent[0] == 'l' ? e.ent[1] : 0;
    if (!(k == 'c' && (!strcmp(e.ent, "lcode") || !strcmp(e.ent, "lcomment"))) && !(k == 'b' && !strcmp(e.ent, "lblank"))) return "label";
    if (k == 'b' && !blank) return "nonblank-blank";
    if (!known_lang.count(e.lang)) return "language";
    pos = e.e;
  }
  for (int i = pos; i < n; i++) if (!isws(lang, b[i]) && !isnl(b[i])) return "lost-text";
  return "";
}
static long lines_missing = 0;
static void large(const char *lang, char mode, int K, const std::string &u, const std::string &t, const SC::Kinds &) {
  H::stat("parses")++;
  PP::parse(lang, t.data(), t.size(), 1); H::stat("reports") += PP::evs.size();
  const char *m = verify(lang, t.data(), t.size());
  if (!*m && php_q) m = "outry-question-mark";
  if (*m) H::viol(std::string(lang) + ":" + m, SC::name(lang, mode, K, u), std::string(m) + " in a text of " + std::to_string(t.size()) + " bytes");
}
static void check(const char *lang, const char *b, int n) {
  H::stat("parses")++;
  PP::parse(lang, b, n, 1);
  H::stat("reports") += PP::evs.size();
  const char *m = verify(lang, b, n);
  if (!*m && php_q) m = "outry-question-mark";
  if (*m) {
    std::string c = std::string(lang) + "|" + H::esc(std::string(b, n));
    H::viol(std::string(lang) + ":" + m, c, std::string(m) + ": " + PP::show());
  }
}
int main(int argc, char **argv) {
  H::init(argc, argv); PP::setup();
  for (auto l : ALL_LANGS) known_lang.insert(l);
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  if (H::replaying) {
    std::string lg, u; char mo; int K; SC::Kinds ks; if (SC::parse_case(H::replay_case, lg, mo, K, u)) { large(lg.c_str(), mo, K, u, SC::make(mo, K, u), ks); return H::done(); }
    size_t k = H::replay_case.find('|'); std::string t = H::unesc(H::replay_case.substr(k + 1));
    check(H::replay_case.substr(0, k).c_str(), t.data(), t.size()); return H::done();
  }
  long budget = getenv("C03_BUDGET") ? atol(getenv("C03_BUDGET")) : th ? 30000000 : 1500000;
  for (int l = 0; l < N_LANGS; l++) {
    const char *lang = ALL_LANGS[l];
    for (int pass = 0; pass < 3; pass++) {
      auto T = tokens_of(lang, pass == 1);
      if (pass == 2) { T.push_back("\r"); T.push_back("\r\n"); T.push_back("\f"); T.push_back("\t"); T.push_back("\v"); T.push_back(std::string(1, 0)); }
      int k = T.size(), depth = 0; long tot = 1, pw = 1;
      while (tot + pw * k <= budget) { pw *= k; tot += pw; depth++; }
      if (H::shard == 0) { H::stats["depth_" + std::to_string(depth)]++; }
      char buf[512]; long c = 0;
      std::function<void(int, int)> rec = [&](int d, int n) {
        if (d >= 2 || H::shard == 0) check(lang, buf, n);
        if (d == depth) return;
        for (int i = 0; i < k; i++) {
          if (d == 1 && c++ % H::nshards != H::shard) continue;
          memcpy(buf + n, T[i].data(), T[i].size()); rec(d + 1, n + T[i].size());
        }
      };
      rec(0, 0);
    }
    SC::all(lang, tokens_of(lang, false), 2, th, large, true);
    // every byte value, alone, in pairs and between ordinary text
    if (l % H::nshards != H::shard) continue;
    const char *pre[] = {"", "a", " ", "a\n", "\n", "a ", "//", "#", "\"", "'", "/*", "<"}, *post[] = {"", "a", "\n", " a\na\n", "\"\na", "'\na"};
    for (int x = 0; x < 256; x++) for (auto p : pre) for (auto q : post) {
      std::string t = std::string(p) + (char)x + q; check(lang, t.data(), t.size());
    }
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { char t[8] = {(char)x, (char)y, '\n', 'a'}; check(lang, t, 2); check(lang, t, 4); }
    if (th) for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) for (int z = 0; z < 256; z += 1) { char t[8] = {(char)x, (char)y, (char)z, 0}; check(lang, t, 3); }
  }
  return H::done();
}
