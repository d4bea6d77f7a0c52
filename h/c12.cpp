// C12: every sequence of queries on a source file (and every interleaving of queries on two files) against values
// computed from the content by the reference classifiers.
#include "pp.h"
#include "spec.h"
#include "scale.h"
#include "tokens.h"
#include <memory>
#include <sys/stat.h>
extern "C" {
#include "licenses.h"
}
using std::string; using std::vector;
struct L { string lang; int k; string text; };
struct PLx { string lang, code, com; int n[3] = {0, 0, 0}; };
enum Store { DISK, DISKPATH, MEMORY, MEMORY_OVER_DISK, MEMORY_OVER_DISKPATH, NSTORE };
static const char *SN[] = {"disk", "diskpath", "memory", "memory-over-disk", "memory-over-diskpath"};
struct Cfg {
  string id, path; Store st; string content; bool missing; const char *setlang; const char *lang; vector<string> lic;
  vector<L> lines; vector<PLx> pls; string exp[9]; string onpath, diskpath;
};
static string dir;
static vector<Cfg> cfgs;
static vector<L> reference(const char *lang, const string &t) {
  vector<L> r; vector<std::pair<string,int>> cls;
  if (!lang) return r;
  bool emb = false;
  for (auto &e : EM::EMBS) if (!strcmp(e.lang, lang)) {
    EM::Out o; if (!EM::classify(e, t.data(), t.size(), o)) { fprintf(stderr, "unspecified config\n"); exit(4); }
    for (int i = 0; i < o.n; i++) cls.push_back({o.l[i].lang, o.l[i].k}); emb = true; }
  if (!emb) {
    auto sp = SP::spec_of(lang); size_t p = 0; // whole lines at a time: the configurations have no construct over 100 lines
    while (p < t.size()) {
      size_t q = p; int nl = 0; while (q < t.size() && nl < 100) { if (t[q] == '\n') nl++; q++; }
      SP::Out o; if (!SP::classify(*sp, t.data() + p, q - p, o)) { fprintf(stderr, "unspecified config\n"); exit(4); }
      for (int i = 0; i < o.n; i++) cls.push_back({sp->lang, o.k[i]}); p = q;
    }
  }
  size_t p = 0;
  for (auto &c : cls) {
    size_t e = p; while (e < t.size() && !SP::isnl(t[e])) e++; if (e < t.size()) e += SP::nllen(t.data(), t.size(), e);
    r.push_back({c.first, c.second, t.substr(p, e - p)}); p = e;
  }
  return r;
}
static vector<string> split(const string &s) { vector<string> r; string c; for (char x : s) { if (x == '\n') { if (c.size()) r.push_back(c); c.clear(); } else c += x; } if (c.size()) r.push_back(c); return r; }
static void lcs(const string &a, const string &b, int &add, int &rem) {
  auto x = split(a), y = split(b); vector<vector<int>> d(x.size() + 1, vector<int>(y.size() + 1, 0));
  for (int i = (int)x.size() - 1; i >= 0; i--) for (int j = (int)y.size() - 1; j >= 0; j--) d[i][j] = x[i] == y[j] ? d[i + 1][j + 1] + 1 : std::max(d[i + 1][j], d[i][j + 1]);
  add = y.size() - d[0][0]; rem = x.size() - d[0][0];
}
static const char *ENT[] = {"lblank", "lcomment", "lcode"};
static string show_delta(const char *l, int a, int b, int c, int d, int e, int f) { char t[200]; snprintf(t, 200, "%s +%d-%d +%d-%d +%d-%d;", l, a, b, c, d, e, f); return t; }
static string exp_diff(const Cfg &a, const Cfg &b) {
  string r; vector<string> names; for (auto &p : a.pls) names.push_back(p.lang);
  for (auto &p : b.pls) if (std::find(names.begin(), names.end(), p.lang) == names.end()) names.push_back(p.lang);
  static PLx none;
  for (auto &n : names) {
    const PLx *x = &none, *y = &none; for (auto &p : a.pls) if (p.lang == n) x = &p; for (auto &p : b.pls) if (p.lang == n) y = &p;
    int ca, cr, ma, mr; lcs(x->code, y->code, ca, cr); lcs(x->com, y->com, ma, mr); int bl = y->n[0] - x->n[0];
    r += show_delta(n.c_str(), ca, cr, ma, mr, bl > 0 ? bl : 0, bl < 0 ? -bl : 0);
  }
  return r;
}
static SourceFile *mk(const Cfg &c) {
  SourceFile *f = ohcount_sourcefile_new(c.onpath.c_str());
  if (!c.diskpath.empty()) { ohcount_sourcefile_set_diskpath(f, "/nonexistent/first"); ohcount_sourcefile_set_diskpath(f, c.diskpath.c_str()); }
  if (c.st >= MEMORY) { ohcount_sourcefile_set_contents(f, "int overwritten;\n"); ohcount_sourcefile_set_contents(f, c.content.c_str()); }
  if (c.setlang) { ohcount_sourcefile_set_language(f, "no such language"); ohcount_sourcefile_set_language(f, c.setlang); }
  return f;
}
static SourceFile *cur_sf; static string acc;
static string trim(const string &t) { size_t k = t.find_first_not_of(" \t"); return k == string::npos ? string() : t.substr(k); }
static void ecb(const char *lang, const char *ent, int s, int e, void *u) {
  if ((size_t)u != 77) acc += "BAD USERDATA";
  string t(cur_sf->contents + s, e - s); if (!strcmp(ent, "lblank")) t = trim(t); // a blank line may be reported without its indentation
  acc += string(lang) + ":" + ent + "{" + t + "}";
}
static string do_diff(SourceFile *a, SourceFile *b) {
  LocDeltaList *d = ohcount_sourcefile_diff(a, b); string r;
  for (auto i = d->head; i; i = i->next) r += show_delta(i->delta->language, i->delta->code_added, i->delta->code_removed, i->delta->comments_added, i->delta->comments_removed, i->delta->blanks_added, i->delta->blanks_removed);
  ohcount_loc_delta_list_free(d); return r;
}
static const char *OPS[] = {"contents", "size", "language", "parsed", "licences", "counts", "lines", "entities", "selfdiff"};
static string op(SourceFile *f, int o) {
  char t[200];
  switch (o) {
  case 0: { char *p = ohcount_sourcefile_get_contents(f); return p ? string(p, f->size >= 0 ? f->size : strlen(p)) : string(); }
  case 1: return std::to_string(ohcount_sourcefile_get_contents_size(f));
  case 2: { const char *l = ohcount_sourcefile_get_language(f); return l ? l : "(none)"; }
  case 3: { string r; for (auto i = ohcount_sourcefile_get_parsed_language_list(f)->head; i; i = i->next) {
      snprintf(t, 200, " %d/%d/%d", i->pl->code_count, i->pl->comments_count, i->pl->blanks_count); r += string(i->pl->name) + "{" + i->pl->code + "}{" + i->pl->comments + "}" + t; } return r; }
  case 4: { string r; for (auto i = ohcount_sourcefile_get_license_list(f)->head; i; i = i->next) r += string(i->lic->name) + ","; return r; }
  case 5: { string r; for (auto i = ohcount_sourcefile_get_loc_list(f)->head; i; i = i->next) { snprintf(t, 200, "%s %d %d %d %d;", i->loc->language, i->loc->code, i->loc->comments, i->loc->blanks, i->loc->filecount); r += t; } return r; }
  case 6: cur_sf = f; acc.clear(); ohcount_sourcefile_parse_with_callback(f, ecb, (void *)77); return acc;
  case 7: cur_sf = f; acc.clear(); ohcount_sourcefile_parse_entities_with_callback(f, ecb, (void *)77); return acc;
  case 8: return do_diff(f, f);
  }
  return "";
}
static void add(string id, string path, string content, const char *lang, vector<string> lic, const char *setlang = nullptr, int only = -1, bool missing = false) {
  static int seq = 0;
  for (int st = 0; st < NSTORE; st++) {
    if (only >= 0 && st != only) continue;
    if (content.empty() && !missing && st >= MEMORY) { }
    Cfg c; c.id = id + "/" + SN[st]; c.path = path; c.st = (Store)st; c.content = content; c.missing = missing; c.setlang = setlang; c.lang = lang; c.lic = lic;
    H::set_case("setup|" + id); string d = dir + "/" + std::to_string(seq++); mkdir(d.c_str(), 0700); mkdir((d + "/sub.d").c_str(), 0700);
    c.onpath = d + "/" + path;
    auto put = [](const string &p, const string &t) { FILE *f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); };
    string other = "class Wrong { }\n# another file\n";
    if (!missing) {
      if (st == DISK) put(c.onpath, content);
      if (st == DISKPATH) { c.diskpath = d + "/tmpfile"; put(c.diskpath, content); put(c.onpath, other); }
      if (st == MEMORY_OVER_DISK) put(c.onpath, other);
      if (st == MEMORY_OVER_DISKPATH) { c.diskpath = d + "/tmpfile"; put(c.diskpath, other); }
    }
    c.lines = reference(lang, content);
    for (auto &l : c.lines) {
      PLx *p = nullptr; for (auto &x : c.pls) if (x.lang == l.lang) p = &x;
      if (!p) { c.pls.push_back(PLx()); p = &c.pls.back(); p->lang = l.lang; }
      p->n[l.k]++; size_t k = l.text.find_first_not_of(" \t"); if (k == string::npos) k = l.text.size();
      if (l.k == SP::CODE) p->code += l.text.substr(k); if (l.k == SP::COMMENT) p->com += l.text.substr(k);
    }
    c.exp[0] = content; c.exp[1] = std::to_string(content.size()); c.exp[2] = lang ? lang : "(none)";
    for (auto &p : c.pls) {
      char t[200]; snprintf(t, 200, " %d/%d/%d", p.n[2], p.n[1], p.n[0]); c.exp[3] += p.lang + "{" + p.code + "}{" + p.com + "}" + t;
      snprintf(t, 200, "%s %d %d %d %d;", p.lang.c_str(), p.n[2], p.n[1], p.n[0], 1); c.exp[5] += t;
    }
    for (auto &l : lic) c.exp[4] += l + ",";
    for (auto &l : c.lines) c.exp[6] += l.lang + ":" + ENT[l.k] + "{" + (l.k == SP::BLANK ? trim(l.text) : l.text) + "}";
    SourceFile *f = mk(c); c.exp[7] = op(f, 7); ohcount_sourcefile_free(f);
    c.exp[8] = exp_diff(c, c);
    cfgs.push_back(c);
  }
}
static void fail(const string &kind, const Cfg &c, const string &cas, const string &what, const string &want, const string &got) {
  H::viol(kind + ":" + what, cas, c.id + ": " + what + " should be [" + H::esc(want).substr(0, 300) + "] but is [" + H::esc(got).substr(0, 300) + "]");
}
static void seq(const Cfg &c, const vector<int> &s) {
  string cas = "one|" + c.id + "|"; for (int o : s) cas += char('0' + o);
  H::set_case(cas); H::progress++;
  SourceFile *f = mk(c); string hist;
  for (size_t i = 0; i < s.size(); i++) {
    string r = op(f, s[i]); H::stat("transitions")++;
    if (r != c.exp[s[i]]) { fail(c.id, c, cas, string(OPS[s[i]]) + " after [" + hist + "]", c.exp[s[i]], r); break; }
    hist += string(hist.empty() ? "" : " ") + OPS[s[i]];
  }
  ohcount_sourcefile_free(f); H::stat("sequences")++;
}
static const int PO[] = {0, 2, 3, 4, 5, 7}; // the queries interleaved on two files; 12 and 13 are the two diffs
static void pair(const Cfg &a, const Cfg &b, const vector<int> &s) {
  string cas = "two|" + a.id + "|" + b.id + "|"; for (int o : s) cas += char('a' + o);
  H::set_case(cas); H::progress++;
  SourceFile *f[2] = {mk(a), mk(b)}; const Cfg *c[2] = {&a, &b};
  for (int o : s) {
    string r, want, what; H::stat("transitions")++;
    if (o < 12) { r = op(f[o / 6], PO[o % 6]); want = c[o / 6]->exp[PO[o % 6]]; what = string(OPS[PO[o % 6]]) + " of file " + char('1' + o / 6); }
    else { r = do_diff(f[o - 12], f[13 - o]); want = exp_diff(*c[o - 12], *c[13 - o]); what = o == 12 ? "diff 1->2" : "diff 2->1"; }
    if (r != want) { fail("two", a, cas, what, want, r); break; }
  }
  ohcount_sourcefile_free(f[0]); ohcount_sourcefile_free(f[1]); H::stat("interleavings")++;
}
// A single text, in memory or on disk: what the classification of its lines makes of its records, counts and size.
static bool expected(const char *lang, const string &t, string &parsed, string &counts, bool outry = false) {
  SC::Kinds k; if (!SC::kinds(lang, t, k)) return false;
  vector<PLx> pls; size_t p = 0; char b[300];
  for (auto &l : k.l) {
    size_t e = p; while (e < t.size() && !SP::isnl(t[e])) e++; if (e < t.size()) e += SP::nllen(t.data(), t.size(), e);
    PLx *x = nullptr; for (auto &y : pls) if (y.lang == l.first) x = &y;
    if (!x) { pls.push_back(PLx()); x = &pls.back(); x->lang = l.first; }
    x->n[l.second]++; size_t q = p; while (q < e && (t[q] == ' ' || t[q] == '\t')) q++;
    if (outry && !t.compare(q, 2, "?>")) q++; // the known defect
    if (l.second == SP::CODE) x->code.append(t, q, e - q); if (l.second == SP::COMMENT) x->com.append(t, q, e - q);
    p = e;
  }
  for (auto &x : pls) {
    snprintf(b, 300, " %d/%d/%d", x.n[2], x.n[1], x.n[0]); parsed += x.lang + "{" + x.code + "}{" + x.com + "}" + b;
    snprintf(b, 300, "%s %d %d %d %d;", x.lang.c_str(), x.n[2], x.n[1], x.n[0], 1); counts += b;
  }
  return true;
}
static void text(const char *lang, const string &t, bool disk, const string &parsed, const string &counts, const string &cas) {
  H::set_case(cas); H::progress++; H::stat("texts")++;
  string path = dir + "/text" + std::to_string(H::shard);
  if (disk) { FILE *f = fopen(path.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
  SourceFile *f = ohcount_sourcefile_new(disk ? path.c_str() : "some file");
  if (!disk) ohcount_sourcefile_set_contents(f, t.c_str());
  ohcount_sourcefile_set_language(f, lang);
  string g = op(f, 3), c = op(f, 5), s = op(f, 1), x = op(f, 0); H::stat("transitions") += 4;
  auto bad = [&](const char *what, const string &want, const string &got) { H::viol(string("text:") + lang + ":" + what, cas, string(what) + " should be [" + H::esc(want.substr(0, 300)) + "] but is [" + H::esc(got.substr(0, 300)) + "]"); };
  string p2, c2;
  if (g != parsed && !strcmp(lang, "php") && expected(lang, t, p2, c2, true) && g == p2) H::viol("php:outry-question-mark", cas, "the line's text is recorded without its question mark");
  else if (g != parsed) bad("parsed", parsed, g); else if (c != counts) bad("counts", counts, c);
  else if (s != std::to_string(t.size())) bad("size", std::to_string(t.size()), s); else if (x != t) bad("contents", t, x);
  ohcount_sourcefile_free(f);
}
static void text(const char *lang, const string &t, bool disk) {
  string p, c; if (!expected(lang, t, p, c)) { H::stat("unspecified")++; return; }
  text(lang, t, disk, p, c, string("text|") + lang + "|" + (disk ? "disk|" : "memory|") + H::esc(t));
}
// the first n bytes of a long text of lines of 16 bytes
static void sized(size_t n, bool disk) {
  string t; while (t.size() < n) t += "  code(); // 3456\n"; t.resize(n);
  size_t full = n / 18, rest = n % 18; string line = "code(); // 3456\n", code; code.reserve(full * 16 + 16);
  for (size_t i = 0; i < full; i++) code += line;
  bool last = rest > 2; if (last) code += line.substr(0, rest - 2);
  char b[200]; string p, c; bool blank = false; // white space after the last line end is no line
  if (full || last) { snprintf(b, 200, "}{} %zu/0/%d", full + last, (int)blank); p = "c{" + code + b; snprintf(b, 200, "c %zu 0 %d 1;", full + last, (int)blank); c = b; }
  text("c", t, disk, p, c, string("sized|") + (disk ? "disk|" : "memory|") + std::to_string(n));
}
static void texts(bool th) {
  vector<string> langs; for (auto &s : SP::SPECS) langs.push_back(s.lang); for (auto &e : EM::EMBS) langs.push_back(e.lang);
  long n = 0; std::set<string> seen;
  for (auto &l : langs) {
    if (!seen.insert(l).second) continue;
    auto T = tokens_of(l.c_str(), false); T.push_back("\t"); T.push_back("\r\n");
    int depth = 1; double c = T.size(); while (c * T.size() <= (th ? 400000 : 20000)) { c *= T.size(); depth++; }
    std::function<void(const string &, int)> rec = [&](const string &t, int d) {
      if (d) for (auto &x : T) rec(t + x, d - 1);
      if (t.size() && n++ % H::nshards == H::shard) { text(l.c_str(), t, false); if (n / H::nshards % 16 == 0) text(l.c_str(), t, true); }
    };
    rec("", depth);
  }
  for (size_t k = 0; k < (th ? 9000 : 1500); k++) for (bool disk : {false, true}) if (n++ % H::nshards == H::shard) sized(k, disk);
  for (size_t b = 2048; b <= (th ? 16 << 20 : 1 << 20); b *= 2) for (int d = -2; d <= 2; d++) for (bool disk : {false, true}) if (n++ % H::nshards == H::shard) sized(b + d, disk);
}
static Cfg *find(const string &id) { for (auto &c : cfgs) if (c.id == id) return &c; return nullptr; }
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard();
  int depth = argc > 3 ? atoi(argv[3]) : 4, pdepth = argc > 4 ? atoi(argv[4]) : 3;
  char tmpl[] = "/tmp/c12.XXXXXX"; dir = mkdtemp(tmpl);
  string c1 = "/* Licensed under the GNU General\n * Public License */\n\n\tint a; // x\n  \t\n   int b = \"/*\"; \r\n\n/* bsd\n\n   license */  c();\n    // last";
  string php = "<html>\n<!-- The MIT License -->\n<?php\n  // GNU General Public License\n  $a = 1;\n\n$b(); ?>\n<style type=\"text/css\">\n  /* sleepycat license */\n  p { }\n\n</style>\n</html>\n";
  string rb = "# one\nputs 'x # y' # two\n=begin\nx\n=end\n\n  z\n";
  add("c", "sub.d/a.c", c1, "c", {"gpl"});
  add("c2", "b.c", "int a; // x\n\n\n// mozilla public license\n\tint q;\nc();\n", "c", {"mozilla_public_1"});
  add("php", "a.b.php", php, "php", {"gpl", "mit", "sleepycat"});
  add("jsp", "a.jsp", "<script type='text/javascript'>\n  a();\n  // mit license\n</script>\n<%\n  b(); // x\n\n  /* bsd license */\n%>\n", "jsp", {"bsd", "mit"});
  add("h", "x.h", "// plain\nclass Foo { };\n\n", "cpp", {});
  add("C", "UPPER.RB", rb, "ruby", {});
  add("mode", "noext", "# -*- Ruby -*-\n" + rb, "ruby", {});
  add("name", "Makefile.am", "# apache license\nall:\n\techo\n", "automake", {"apache"});
  add("binary", "a.jpg", "int a; // gpl\n", nullptr, {});
  add("empty", "a.c", "", "c", {});
  add("emptypl", "a.pl", "", "perl", {}); add("emptyin", "a.sh.in", "", "shell", {});
  add("missing", "a.c", "", "c", {}, nullptr, DISK, true);
  add("set", "a.c", rb, "ruby", {}, "ruby");
  add("set2", "a.jpg", c1, "c", {"gpl"}, "c");
  string big; for (int i = 0; i < 2500; i++) big += i % 5 == 0 ? "// gpl\n" : i % 7 == 0 ? "\n" : "  int a" + std::to_string(i) + ";\n";
  if (H::replaying) {
    string s = H::replay_case; auto k = s.find('|'); auto rest = s.substr(k + 1); auto k2 = rest.find('|');
    if (!s.compare(0, 6, "sized|")) { bool disk = rest[0] == 'd'; sized(atol(rest.c_str() + k2 + 1), disk); }
    else if (!s.compare(0, 5, "text|")) { auto r2 = rest.substr(k2 + 1); auto k3 = r2.find('|'); text(rest.substr(0, k2).c_str(), H::unesc(r2.substr(k3 + 1)), r2[0] == 'd'); }
    else if (s[0] == 'o') { Cfg *c = find(rest.substr(0, k2)); vector<int> v; for (char x : rest.substr(k2 + 1)) v.push_back(x - '0'); if (c) seq(*c, v); }
    else { auto r2 = rest.substr(k2 + 1); auto k3 = r2.find('|'); Cfg *a = find(rest.substr(0, k2)), *b = find(r2.substr(0, k3)); vector<int> v; for (char x : r2.substr(k3 + 1)) v.push_back(x - 'a'); if (a && b) pair(*a, *b, v); }
  } else {
    int n = 0;
    for (auto &c : cfgs) {
      vector<int> s;
      std::function<void(int)> rec = [&](int d) {
        if (d) { if ((int)s.size() == depth || 1) { if (n++ % H::nshards == H::shard && d == depth) seq(c, s); else if (d != depth) n--; } }
        if (d == depth) return;
        for (int o = 0; o < 9; o++) { s.push_back(o); rec(d + 1); s.pop_back(); }
      };
      rec(0);
    }
    vector<std::pair<string,string>> pairs = {{"c/disk", "c2/disk"}, {"c/memory", "c2/disk"}, {"php/disk", "c/memory"}, {"php/memory", "php/disk"}, {"binary/disk", "c/disk"}, {"set/disk", "C/memory"}, {"empty/disk", "c2/diskpath"}, {"missing/disk", "h/memory"}};
    for (auto &p : pairs) {
      vector<int> s; Cfg *a = find(p.first), *b = find(p.second);
      std::function<void(int)> rec = [&](int d) {
        if (d == pdepth) { if (n++ % H::nshards == H::shard) pair(*a, *b, s); return; }
        for (int o = 0; o < 14; o++) { s.push_back(o); rec(d + 1); s.pop_back(); }
      };
      rec(0);
    }
    texts(depth > 4);
    // a file of 2500 lines: all sequences of two queries
    size_t before = cfgs.size(); add("big", "big.c", big, "c", {"gpl"});
    for (size_t i = before; i < cfgs.size(); i++) for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) if (n++ % H::nshards == H::shard && a != 8 && b != 8) seq(cfgs[i], {a, b});
    if (H::shard == 0) { H::stat("configurations") = cfgs.size(); H::sample(cfgs[0].id + ": " + H::esc(cfgs[0].exp[3])); H::sample("pair " + pairs[0].first + " " + pairs[0].second + ": diff " + exp_diff(*find("c/disk"), *find("c2/disk"))); }
  }
  if (dir.compare(0, 9, "/tmp/c12.") == 0) { string cmd = "/bin/rm -rf " + dir; (void)!system(cmd.c_str()); }
  return H::done();
}
