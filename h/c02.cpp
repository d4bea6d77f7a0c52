// C02: the real parsers of the formats that host other languages against the reference classifier.
#include "pp.h"
#include "emb.h"
#include "scale.h"
static void check(const EM::Emb &em, const char *b, int n) {
  EM::Out o; const char *why = nullptr;
  H::stat("texts")++;
  if (!(em.secs.empty() ? EM::classify_haml(b, n, o) : EM::classify(em, b, n, o, &why))) { H::stat("unspecified")++; return; }
  PP::parse(em.lang, b, n, 1);
  H::stat("lines_compared") += o.n;
  bool bad = (int)PP::evs.size() != o.n;
  for (int i = 0; !bad && i < o.n; i++) {
    auto &e = PP::evs[i];
    char c = e.ent[1] == 'b' ? 0 : e.ent[2] == 'o' && e.ent[3] == 'm' ? 1 : 2;
    if (c != o.l[i].k || strcmp(e.lang, o.l[i].lang)) bad = true;
  }
  if (bad) {
    static const char *K[] = {"blank", "comment", "code"};
    std::string want; for (int j = 0; j < o.n; j++) want += std::string(j ? ", " : "") + o.l[j].lang + " " + K[(int)o.l[j].k];
    H::viol(std::string(em.lang) + (why ? std::string(":") + why : ""), std::string(em.lang) + "|" + H::esc(std::string(b, n)), "lines should be " + want + " but got " + PP::show());
  }
}
static void large(const char *lang, char mode, int K, const std::string &u, const std::string &t, const SC::Kinds &k) {
  PP::parse(lang, t.data(), t.size(), 1);
  size_t n = k.l.size(), want = SC::lines(mode, K, n), i = 0; H::stat("lines_compared") += want;
  bool bad = PP::evs.size() != want;
  for (; !bad && i < want; i++) { auto &e = PP::evs[i]; char c = e.ent[1] == 'b' ? 0 : e.ent[2] == 'o' && e.ent[3] == 'm' ? 1 : 2; if (c != k.l[SC::index(mode, K, n, i)].second || (e.lang != k.l[SC::index(mode, K, n, i)].first && strcmp(e.lang, k.l[SC::index(mode, K, n, i)].first))) { bad = true; break; } }
  if (bad) H::viol(lang, SC::name(lang, mode, K, u), "a text of " + std::to_string(t.size()) + " bytes: " + (PP::evs.size() != want ? std::to_string(PP::evs.size()) + " lines instead of " + std::to_string(want) : "line " + std::to_string(i + 1) + " is of another kind or language than in the unit"));
}
static std::vector<std::vector<std::string>> alphabets(const EM::Emb &em) {
  std::vector<std::vector<std::string>> r;
  if (em.secs.empty()) { r.push_back({"%p", "=", "-", "/", "#", " ", "  ", "\"", "'", "a", ".", "\n"}); r.push_back({"%p", "= ", "- ", "-#", "  ", "\\", "&", "!", "~", "#", "a", "\n", "\r\n", "\f"}); return r; }
  std::set<std::string> all;
  for (auto &c : em.secs) {
    // one section kind with the host's constructs
    std::set<std::string> d;
    for (auto &x : c.entry) d.insert(x);
    for (auto &x : c.exit) d.insert(x);
    for (auto &u : c.rules) { d.insert(u.open); if (!u.close.empty()) d.insert(u.close); if (u.f & (SP::BS | SP::CONT)) d.insert("\\"); }
    std::set<std::string> h;
    for (auto &u : em.rules) { h.insert(u.open); if (!u.close.empty()) h.insert(u.close); }
    if (em.templ) { h.insert("<!--"); h.insert("-->"); h.insert("\""); h.insert("'"); }
    std::vector<std::string> v1(d.begin(), d.end()), v2;
    for (auto &x : c.entry) if (v2.empty() || x != c.entry[0] || 1) v2.push_back(x);
    for (auto &x : c.exit) if (std::find(v2.begin(), v2.end(), x) == v2.end()) v2.push_back(x);
    for (auto &x : h) if (std::find(v2.begin(), v2.end(), x) == v2.end()) v2.push_back(x);
    for (auto *v : {&v1, &v2}) { v->push_back("a"); v->push_back(" "); v->push_back("\n"); r.push_back(*v); }
    // the embedded comments against the delimiters, all line endings
    std::vector<std::string> v3; v3.push_back(c.entry.back()); v3.push_back(c.exit.back()); for (auto &u : c.rules) if (u.t == SP::LINE || u.t == SP::BLOCK) { v3.push_back(u.open); if (!u.close.empty()) v3.push_back(u.close); }
    for (auto x : {"a", " ", "\n", "\r\n", "\r", "\f", "\t"}) v3.push_back(x);
    r.push_back(v3);
    all.insert(c.entry[0]); all.insert(c.exit[0]);
  }
  // all sections together
  std::vector<std::string> v(all.begin(), all.end()); v.push_back("a"); v.push_back(" "); v.push_back("\n"); v.push_back("//"); r.push_back(v);
  return r;
}
int main(int argc, char **argv) {
  H::init(argc, argv); PP::setup();
  if (H::replaying) {
    std::string lg, u; char m; int K; SC::Kinds ks; if (SC::parse_case(H::replay_case, lg, m, K, u)) { if (SC::unit_kinds(lg.c_str(), m, u, ks)) large(lg.c_str(), m, K, u, SC::make(m, K, u), ks); return H::done(); }
    size_t k = H::replay_case.find('|'); std::string t = H::unesc(H::replay_case.substr(k + 1)), l = H::replay_case.substr(0, k);
    for (auto &e : EM::EMBS) if (l == e.lang) check(e, t.data(), t.size());
    return H::done();
  }
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  const char *only = getenv("C02_LANG");
  long budget = getenv("C02_BUDGET") ? atol(getenv("C02_BUDGET")) : th ? 200000000 : 4000000;
  static char buf[4096];
  for (auto &em : EM::EMBS) {
    if (only && strcmp(only, em.lang)) continue;
    for (auto &T : alphabets(em)) {
      int k = T.size(), depth = 0; long tot = 1, pw = 1;
      while (tot + pw * k <= budget) { pw *= k; tot += pw; depth++; }
      if (H::shard == 0) { H::stats["depth_" + std::to_string(depth)]++; }
      long c = 0;
      std::function<void(int, int)> rec = [&](int d, int n) {
        if (d >= 2 || H::shard == 0) check(em, buf, n);
        if (d == depth) return;
        for (int i = 0; i < k; i++) {
          if (d == 1 && c++ % H::nshards != H::shard) continue;
          memcpy(buf + n, T[i].data(), T[i].size()); rec(d + 1, n + T[i].size());
        }
      };
      rec(0, 0);
    }
    SC::all(em.lang, alphabets(em).back(), 3, th, large);
    // every way to write the tags of a section
    if (std::any_of(em.secs.begin(), em.secs.end(), [](const EM::Sec &c) { return c.entry[0][0] == '<' && c.entry[0][1] == 's'; })) {
      static const std::vector<std::string> A = {" ", "\n", "\r\n", "\t", " type=\"text/css\"", " type='text/css'", " type=\"text/javascript\"", "\ntype = 'text/javascript'", " runat=\"server\"", " a=\"b\"", " a", " type=\"text/plain\"", " type='application/javascript'"};
      long c = 0; int depth = th ? 4 : 3;
      for (auto name : {"<style", "<STYLE", "<script", "<Script"}) {
        std::function<void(std::string, int)> rec = [&](std::string t, int d) {
          if (c++ % H::nshards == H::shard)
            for (auto pre : {"", "a ", "\n \n"}) for (auto body : {"", "x", "\nx\n", "\n\n/*c*/\n", "//c\n"}) for (auto out : {"</style>", "</STYLE>", "</style >", "</script>", "</Script\t>", ""}) for (auto post : {"", "\n", "a\n", "\n<p>\n"}) {
              std::string x = std::string(pre) + t + ">" + body + out + post; check(em, x.data(), x.size()); H::stat("tag_texts")++;
            }
          if (d) for (auto &a : A) rec(t + a, d - 1);
        };
        rec(name, depth);
      }
    }
    if (H::shard == 0) H::stat("formats")++;
  }
  return H::done();
}
