// C04: invariants of the entity reports, for every byte string and token string within the bounds.
#include "pp.h"
#include "tokens.h"
#include "scale.h"
static inline bool isws(char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\n' || c == '\r' || c == '\f'; }
static std::set<std::string> known_lang;
static std::set<std::string> names;
static const char *verify(const char *lang, const char *b, int n) {
  int pos = 0;
  for (auto &e : PP::evs) {
    if (e.s < 0 || e.e > n || e.s >= e.e) return "range";
    if (e.s < pos) return "overlap";
    if (!known_lang.count(e.lang)) return "language";
    if (!strncmp(e.ent, "lcode", 5) || !strcmp(e.ent, "lblank") || !strcmp(e.ent, "lcomment")) return "line-report";
    if (!names.count(e.ent)) return "entity-name";
    pos = e.e;
  }
  return "";
}
// comments, strings (and for all, white space) of a text in which all are closed; false: the rules leave it open
struct Span { int s, e; const char *what; };
static std::vector<Span> want;
static bool spans(const SP::Spec &sp, const char *s, int n, bool strings) {
  std::string t(s, n); auto has = [&](const char *x) { return t.find(x) != std::string::npos; };
  if ((!strcmp(sp.lang, "ruby") || !strcmp(sp.lang, "crystal") || !strcmp(sp.lang, "perl")) && has("=")) return false; // where a =begin or =pod counts
  if (!strcmp(sp.lang, "haxe") && (has("\\\n") || has("\\\r") || has("\\\f"))) return false;
  if (!strcmp(sp.lang, "kotlin") && has("\"\"\"\"")) return false;
  want.clear(); bool code = false; int i = 0;
  while (i < n) {
    if (isws(s[i])) { int e = i; while (e < n && isws(s[e])) { if (SP::isnl(s[e])) code = false; e++; } want.push_back({i, e, "space"}); i = e; continue; }
    int best = 0; SP::Kind bk = SP::CODE; bool str = false;
    for (auto &r : sp.rules) { SP::Kind k = SP::CODE; int l = r.t == SP::CUSTOM ? SP::custom(sp, r, s, n, i, &k) : r.t == SP::OPER || r.t == SP::PLAINCOMMENT || r.t == SP::WSCHAR ? 0 : SP::span(r, s, n, i, code, &k);
      if (l < 0) return false; if (l > best) { best = l; bk = k; str = k == SP::CODE; }
      if (r.t == SP::CUSTOM && l > 0 && k == SP::CODE) return false; // Lua's long strings
      if ((r.t == SP::STRING || r.t == SP::REGEX) && SP::at(s, n, i, r.open) && (l == 0 || !strings)) return false; }
    if (best) { if (bk == SP::COMMENT) want.push_back({i, i + best, "comment"}); else if (str) want.push_back({i, i + best, "string"}); for (int k = i; k < i + best; k++) if (SP::isnl(s[k])) code = false; else code = true; i += best; }
    else { code = true; i++; }
  }
  return true;
}
static std::set<std::string> with_strings, without;
static const char *verify2(const char *lang, const char *b, int n) {
  auto sp = SP::spec_of(lang); if (!sp || without.count(lang)) return "";
  if (!spans(*sp, b, n, with_strings.count(lang))) { H::stat("unspecified")++; return ""; }
  size_t k = 0;
  for (auto &e : PP::evs) { bool c = !strcmp(e.ent, "comment"), s = !strcmp(e.ent, "string"), w = !strcmp(e.ent, "space"); if (!c && !s && !w) continue;
    if (k >= want.size() || want[k].s != e.s || want[k].e != e.e || strcmp(want[k].what, e.ent)) return "entity"; k++; }
  return k == want.size() ? "" : "entity-missing";
}
static void check(const char *lang, const char *b, int n) {
  H::stat("parses")++;
  PP::parse(lang, b, n, 0);
  H::stat("reports") += PP::evs.size();
  const char *m = verify(lang, b, n);
  if (!*m) m = verify2(lang, b, n);
  if (*m) {
    std::string c = std::string(lang) + "|" + H::esc(std::string(b, n));
    H::viol(std::string(lang) + ":" + m, c, std::string(m) + ": " + PP::show());
  }
}
// the entities of a repeated text are those of the unit, each time further on
static void large(const char *lang, char mode, int K, const std::string &u, const std::string &t, const SC::Kinds &) {
  // an entity left open is looked for to the end of the text again and again
  auto sp = SP::spec_of(lang);
  if (mode == 'p') {
    int sh = 2 * (K - 2); PP::parse(lang, SC::make('p', 2, u).data(), u.size() + 4, 0); auto two = PP::evs; 
    PP::parse(lang, t.data(), t.size(), 0); H::stat("parses")++; H::stat("reports") += PP::evs.size(); const char *m = verify(lang, t.data(), t.size());
    // the entities from the last line on are those of the short text
    auto tail = [](const std::vector<PP::Ev> &v, int from) { std::vector<PP::Ev> r; for (auto &e : v) if (e.s >= from) r.push_back(e); return r; };
    auto a = tail(two, 2), b = tail(PP::evs, 2 + sh); bool same = a.size() == b.size();
    for (size_t i = 0; same && i < a.size(); i++) if (a[i].s + sh != b[i].s || a[i].e + sh != b[i].e || strcmp(a[i].ent, b[i].ent) || strcmp(a[i].lang, b[i].lang)) same = false;
    if (!*m && !same) m = "large-text";
    if (*m) H::viol(std::string(lang) + ":" + m, SC::name(lang, mode, K, u), std::string(m) + " in a text of " + std::to_string(t.size()) + " bytes");
    return;
  }
  if (sp ? without.count(lang) || !spans(*sp, u.data(), u.size(), with_strings.count(lang)) || (!with_strings.count(lang) && u.find_first_of("'\"`") != u.npos) : u.find_first_of("'\"`<#/{%-") != u.npos) { H::stat("large_texts")--; return; }
  PP::parse(lang, u.data(), u.size(), 0); auto one = PP::evs;
  PP::parse(lang, (u + u + u).data(), u.size() * 3, 0); bool tiled = mode == 'r' && PP::evs.size() == one.size() * 3;
  for (size_t i = 0; tiled && i < PP::evs.size(); i++) { auto &a = one[i % one.size()], &b = PP::evs[i]; int o = i / one.size() * u.size(); if (a.s + o != b.s || a.e + o != b.e || strcmp(a.ent, b.ent) || strcmp(a.lang, b.lang)) tiled = false; }
  H::stat("parses")++;
  PP::parse(lang, t.data(), t.size(), 0); H::stat("reports") += PP::evs.size();
  const char *m = verify(lang, t.data(), t.size());
  if (!*m && tiled) { if (PP::evs.size() != one.size() * K) m = "large-text";
    for (size_t i = 0; !*m && i < PP::evs.size(); i++) { auto &a = one[i % one.size()], &b = PP::evs[i]; int o = i / one.size() * u.size(); if (a.s + o != b.s || a.e + o != b.e || strcmp(a.ent, b.ent) || strcmp(a.lang, b.lang)) m = "large-text"; } }
  if (!*m && mode == 'w') { // as many entities as with short words and spaces
    PP::parse(lang, SC::make('w', 3, u).data(), SC::make('w', 3, u).size(), 0); auto three = PP::evs; PP::parse(lang, SC::make('w', 5, u).data(), SC::make('w', 5, u).size(), 0); bool st = three.size() == PP::evs.size();
    if (st) { PP::parse(lang, t.data(), t.size(), 0); if (PP::evs.size() != three.size()) m = "large-text"; for (size_t i = 0; !*m && i < three.size(); i++) if (strcmp(three[i].ent, PP::evs[i].ent)) m = "large-text"; } }
  if (*m) H::viol(std::string(lang) + ":" + m, SC::name(lang, mode, K, u), std::string(m) + " in a text of " + std::to_string(t.size()) + " bytes");
}
int main(int argc, char **argv) {
  H::init(argc, argv); PP::setup();
  for (auto l : ALL_LANGS) known_lang.insert(l);
  for (auto n : {"space", "comment", "string", "number", "preproc", "keyword", "identifier", "operator", "any", "evaluator", "element", "element_class", "element_id", "at_rule", "color", "doctype", "entity", "include", "line_start", "selector", "tag", "unit", "url", "value"}) names.insert(n);
  for (auto l : {"c", "cpp", "csharp", "vala", "genie", "cuda", "ec", "glsl", "golang", "dart", "fsharp", "kotlin", "limbo", "lua", "modula2", "modula3", "oberon", "rebol", "rust", "stratego", "swift", "modelica"}) with_strings.insert(l);
  // no entities (vim, factor), or comments by other rules than for counting
  for (auto l : {"vim", "factor", "autoconf", "bfpp", "brainfuck", "blitzmax", "classic_basic", "fortranfixed"}) without.insert(l);
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  if (H::replaying) {
    std::string lg, u; char mo; int K; SC::Kinds ks; if (SC::parse_case(H::replay_case, lg, mo, K, u)) { large(lg.c_str(), mo, K, u, SC::make(mo, K, u), ks); return H::done(); }
    size_t k = H::replay_case.find('|'); std::string t = H::unesc(H::replay_case.substr(k + 1));
    check(H::replay_case.substr(0, k).c_str(), t.data(), t.size()); return H::done();
  }
  long budget = th ? 30000000 : 1500000;
  for (int l = 0; l < N_LANGS; l++) {
    const char *lang = ALL_LANGS[l];
    for (int pass = 0; pass < 3; pass++) {
      auto T = tokens_of(lang, pass == 1);
      if (pass == 2) { T.push_back("\r"); T.push_back("\r\n"); T.push_back("\f"); T.push_back("\t"); T.push_back("\v"); T.push_back(std::string(1, 0)); T.push_back("1"); T.push_back("."); }
      int k = T.size(), depth = 0; long tot = 1, pw = 1;
      while (tot + pw * k <= budget) { pw *= k; tot += pw; depth++; }
      if (H::shard == 0) { H::stats["depth_" + std::to_string(depth)]++; }
      char buf[512]; long c = 0;
      std::function<void(int, int)> rec = [&](int d, int n) {
        if (d >= 2 || H::shard == 0) check(lang, buf, n);
        if (d == depth) return;
        for (int i = 0; i < k; i++) {
          if (d == 1 && c++ % H::nshards != H::shard) continue;
          memcpy(buf + n, T[i].data(), T[i].size()); rec(d + 1, n + T[i].size());
        }
      };
      rec(0, 0);
    }
    SC::all(lang, tokens_of(lang, false), 2, th, large);
    if (l % H::nshards != H::shard) continue;
    const char *pre[] = {"", "a", " ", "a\n", "\n", "a ", "//", "#", "\"", "'", "/*", "<"}, *post[] = {"", "a", "\n", " a\na\n", "\"\na", "'\na"};
    for (int x = 0; x < 256; x++) for (auto p : pre) for (auto q : post) {
      std::string t = std::string(p) + (char)x + q; check(lang, t.data(), t.size());
    }
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { char t[8] = {(char)x, (char)y, '\n', 'a'}; check(lang, t, 2); check(lang, t, 4); }
  }
  return H::done();
}
