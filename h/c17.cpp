// C17: ohcount_sourcefile_diff on all pairs of small versions, against the reference classifier and an LCS of the
// lines of each language and kind.
#include "pp.h"
#include "spec.h"
#include "emb.h"
extern "C" {
#include "loc.h"
}
using std::string; using std::vector;
struct Part { vector<string> code, com; int n[3] = {0, 0, 0}; };
struct Ver { string path, text; const char *lang; std::map<string, Part> parts; };
static bool reference(Ver &v) {
  vector<std::pair<string,int>> cls; const string &t = v.text;
  if (!v.lang) return true;
  bool emb = false;
  for (auto &e : EM::EMBS) if (!strcmp(e.lang, v.lang)) { EM::Out o; if (!EM::classify(e, t.data(), t.size(), o)) return false; for (int i = 0; i < o.n; i++) cls.push_back({o.l[i].lang, o.l[i].k}); emb = true; }
  if (!emb) { SP::Out o; if (!SP::classify(*SP::spec_of(v.lang), t.data(), t.size(), o)) return false; for (int i = 0; i < o.n; i++) cls.push_back({v.lang, o.k[i]}); }
  size_t p = 0;
  for (auto &c : cls) {
    size_t e = p; while (e < t.size() && !SP::isnl(t[e])) e++;
    string l = t.substr(p, e - p); size_t k = l.find_first_not_of(" \t"); if (k == string::npos) k = l.size(); l = l.substr(k);
    if (e < t.size()) { int m = SP::nllen(t.data(), t.size(), e); if (m == 2) l += '\r'; e += m; }
    Part &q = v.parts[c.first]; q.n[c.second]++; if (c.second == 2) q.code.push_back(l); if (c.second == 1) q.com.push_back(l);
    p = e;
  }
  return true;
}
static void lcs(const vector<string> &x, const vector<string> &y, int &add, int &rem) {
  int n = x.size(), m = y.size(); static int d[40][40];
  for (int i = n; i >= 0; i--) for (int j = m; j >= 0; j--) d[i][j] = i == n || j == m ? 0 : x[i] == y[j] ? d[i + 1][j + 1] + 1 : std::max(d[i + 1][j], d[i][j + 1]);
  add = m - d[0][0]; rem = n - d[0][0];
}
static string str(const string &l, const int *v) { char t[200]; snprintf(t, 200, "%s code+%d-%d comment+%d-%d blank+%d-%d; ", l.c_str(), v[0], v[1], v[2], v[3], v[4], v[5]); return t; }
static SourceFile *mk(const Ver &v) { SourceFile *f = ohcount_sourcefile_new(v.path.c_str()); ohcount_sourcefile_set_contents(f, v.text.c_str()); return f; }
static void check(const string &fam, const Ver &a, const Ver &b) {
  static const Part none;
  string cas = a.path + "|" + H::esc(a.text) + "|" + b.path + "|" + H::esc(b.text);
  H::set_case(cas); H::progress++; H::stat("pairs")++;
  SourceFile *f = mk(a), *g = mk(b);
  LocDeltaList *d = ohcount_sourcefile_diff(f, g);
  std::map<string, string> got; string bad; vector<string> want_v;
  for (auto i = d->head; i; i = i->next) {
    int v[6] = {i->delta->code_added, i->delta->code_removed, i->delta->comments_added, i->delta->comments_removed, i->delta->blanks_added, i->delta->blanks_removed};
    if (got.count(i->delta->language)) bad = string("two deltas for ") + i->delta->language; got[i->delta->language] = str(i->delta->language, v); H::stat("deltas")++;
  }
  std::map<string, string> want; std::set<string> langs; for (auto &p : a.parts) langs.insert(p.first); for (auto &p : b.parts) langs.insert(p.first);
  for (auto &l : langs) {
    auto x = a.parts.find(l), y = b.parts.find(l); const Part &p = x == a.parts.end() ? none : x->second, &q = y == b.parts.end() ? none : y->second;
    int v[6]; lcs(p.code, q.code, v[0], v[1]); lcs(p.com, q.com, v[2], v[3]); int n = q.n[0] - p.n[0]; v[4] = n > 0 ? n : 0; v[5] = n < 0 ? -n : 0;
    want[l] = str(l, v);
    // one language's delta by itself
    LocDelta *c = ohcount_sourcefile_calc_loc_delta(f, l.c_str(), g); int w[6] = {c->code_added, c->code_removed, c->comments_added, c->comments_removed, c->blanks_added, c->blanks_removed};
    if (str(l, w) != want[l]) bad = "delta asked for by language: " + str(l, w); ohcount_loc_delta_free(c);
  }
  if (got != want || !bad.empty()) {
    string w, h; for (auto &x : want) w += x.second; for (auto &x : got) h += x.second;
    H::viol(fam, cas, "should be [" + w + "] but is [" + h + "] " + bad);
  }
  ohcount_loc_delta_list_free(d); ohcount_sourcefile_free(f); ohcount_sourcefile_free(g);
}
static vector<Ver> versions(const string &path, const char *lang, const vector<string> &voc, int maxlen, bool chop) {
  vector<Ver> r;
  std::function<void(int, const string &)> rec = [&](int d, const string &t) {
    Ver v{path, t, lang, {}}; if (reference(v)) r.push_back(v); else H::stat("unspecified")++;
    if (chop && !t.empty() && t.size() > 1) { Ver w{path, t.substr(0, t.size() - 1), lang, {}}; if (reference(w)) r.push_back(w); }
    if (d < maxlen) for (auto &x : voc) rec(d + 1, t + x);
  };
  rec(0, ""); return r;
}
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard();
  if (H::replaying) {
    vector<string> f; string c; for (char x : H::replay_case + "|") if (x == '|') { f.push_back(c); c.clear(); } else c += x;
    auto lang = [](const string &p) -> const char * { string e = p.substr(p.rfind('.') + 1); return e == "jpg" ? nullptr : e == "py" ? "python" : e == "rb" ? "ruby" : e == "h" ? "c" : e == "c" ? "c" : e == "html" ? "html" : e == "php" ? "php" : e == "jsp" ? "jsp" : e == "sh" ? "shell" : "lua"; };
    Ver a{f[0], H::unesc(f[1]), lang(f[0]), {}}, b{f[2], H::unesc(f[3]), lang(f[2]), {}}; if (reference(a) && reference(b)) check("replay", a, b); return H::done();
  }
  int x = argc > 3 && !strcmp(argv[3], "thorough");
  string js1 = "<script type='text/javascript'>\na();\n\n// x\n</script>\n", js2 = "<script type='text/javascript'>\n  b();\na();\n</script>\n", css = "<style type=\"text/css\">\np { }\n/* x */\n\n</style>\n";
  struct Fam { string name; vector<Ver> v; };
  vector<Fam> fams;
  fams.push_back({"c", versions("a.c", "c", {"int a;\n", "int b;\n", "// a\n", "\n", " \tint a;\n"}, 3 + x, !x)});
  fams.push_back({"line-ends", versions("a.c", "c", {"int a;\r", "int b;\f", "// a\r\n", "\n", "// b\r", "int b;\n"}, 3, true)});
  fams.push_back({"html", versions("a.html", "html", {"<p>\n", "<!-- c -->\n", "\n", js1, js2, css}, 3 + x, false)});
  fams.push_back({"php", versions("a.php", "php", {"<p>\n", "<?php\n$a;\n# x\n\n$b(); ?>\n", "<?php\n$b();\n$a; ?>\n", js1, "\n"}, 3 + x, false)});
  fams.push_back({"jsp", versions("a.jsp", "jsp", {"<p>\n", "<%\na();\n\nb();\n// x\n%>\n", js1, js2}, 3 + x, false)});
  Fam mix{"names", {}};
  struct { const char *p, *l; } names[] = {{"a.c", "c"}, {"b.c", "c"}, {"a.h", "c"}, {"a.py", "python"}, {"a.rb", "ruby"}, {"a.html", "html"}, {"a.php", "php"}, {"a.jpg", nullptr}, {"a.lua", "lua"}, {"a.sh", "shell"}};
  for (auto &n : names) for (auto &v : versions(n.p, n.l, {"x\n", "# y\n", "-- y\n"}, 2 + x, false)) mix.v.push_back(v);
  for (auto &n : names) for (auto &v : versions(n.p, n.l, {"x\n", "\n", "// z\n"}, 2, false)) mix.v.push_back(v);
  fams.push_back(mix);
  long n = 0;
  for (auto &f : fams) {
    if (H::shard == 0) { H::stat("versions") += f.v.size(); H::sample(f.name + ": " + std::to_string(f.v.size()) + " versions, e.g. " + H::esc(f.v.back().text)); }
    for (auto &a : f.v) for (auto &b : f.v) if (n++ % H::nshards == H::shard) check(f.name, a, b);
  }
  return H::done();
}
