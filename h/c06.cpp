// C06: every parser in both modes, and the accessors on every odd name, on texts in allocations of their exact size, with sanitizers.
#include "pp.h"
#include "tokens.h"
#include "magicstub.h"
extern "C" {
#include "detector.h"
#include "licenses.h"
#include "diff.h"
}
static void check(const char *lang, const char *b, int n) {
  PP::parse(lang, b, n, 1, true); PP::parse(lang, b, n, 0, true);
  H::stat("texts")++; H::stat("parses") += 2;
}
// everything the library can be asked about one file
static void ask(const std::string &name, const std::string &text, const char *answer) {
  static std::string c; c = "@" + H::esc(name) + "|" + H::esc(text) + "|" + answer; H::set_case(c); H::progress++; H::stat("files")++;
  MS::answer = answer;
  char *path = strdup(name.c_str()), *t = strdup(text.c_str());
  SourceFile *s = ohcount_sourcefile_new(path); ohcount_sourcefile_set_contents(s, t); free(t);
  std::vector<char *> v; for (auto n : {"", ".", "h", ".h", "c", "x.m", "a.c", "b.cpp", ".vb", "frm"}) v.push_back(strdup(n)); v.push_back(0); s->filenames = v.data();
  ohcount_is_binary_filename(path);
  const char *l = ohcount_sourcefile_get_language(s); (void)l; ohcount_sourcefile_get_license_list(s); ohcount_sourcefile_get_loc_list(s); ohcount_sourcefile_get_parsed_language_list(s);
  ohcount_sourcefile_parse_entities_with_callback(s, PP::cb, 0); ohcount_sourcefile_set_diskpath(s, path); ohcount_sourcefile_set_language(s, path); ohcount_sourcefile_set_contents(s, path);
  SourceFile *o = ohcount_sourcefile_new("x.c"); ohcount_sourcefile_set_contents(o, text.c_str()); LocDeltaList *d = ohcount_sourcefile_diff(s, o); ohcount_loc_delta_list_free(d); ohcount_sourcefile_free(o);
  PP::evs.clear(); ohcount_sourcefile_free(s); free(path); for (char *x : v) free(x);
}
// one file whose fields are set again and again
static const std::string HOPS = "abcdefghijkl";
static void history(const std::string &ops) {
  H::set_case("!" + ops); H::progress++; H::stat("files")++; MS::answer = "data";
  SourceFile *s = ohcount_sourcefile_new("x.c");
  for (char o : ops) switch (o) {
    case 'a': { char *t = strdup("12345678"); ohcount_sourcefile_set_diskpath(s, t); free(t); break; }
    case 'b': { char *t = strdup("123456789"); ohcount_sourcefile_set_diskpath(s, t); free(t); break; }
    case 'c': { char *t = strdup(""); ohcount_sourcefile_set_diskpath(s, t); free(t); break; }
    case 'd': { char *t = strdup("int a;\n// b\n"); ohcount_sourcefile_set_contents(s, t); free(t); break; }
    case 'e': { char *t = strdup("int a;\n// gpl\n\n"); ohcount_sourcefile_set_contents(s, t); free(t); break; }
    case 'f': { char *t = strdup(""); ohcount_sourcefile_set_contents(s, t); free(t); break; }
    case 'g': { char *t = strdup("ruby"); ohcount_sourcefile_set_language(s, t); free(t); break; }
    case 'h': { char *t = ohcount_sourcefile_get_contents(s); int n = ohcount_sourcefile_get_contents_size(s); if (t && n >= 0 && t[n] != 0) H::viol("terminator", "!" + ops, "contents do not end with a NUL"); break; }
    case 'i': { const char *l = ohcount_sourcefile_get_language(s); if (l && strlen(l) > 99) abort(); break; }
    case 'j': { long n = 0; for (ParsedLanguageList *i = ohcount_sourcefile_get_parsed_language_list(s)->head; i; i = i->next) n += strlen(i->pl->code) + strlen(i->pl->comments) + strlen(i->pl->name); if (n < 0) abort(); break; }
    case 'k': { for (LicenseList *i = ohcount_sourcefile_get_license_list(s)->head; i; i = i->next) if (strlen(i->lic->name) > 99) abort(); for (LocList *i = ohcount_sourcefile_get_loc_list(s)->head; i; i = i->next) if (strlen(i->loc->language) > 99) abort(); break; }
    case 'l': { LocDeltaList *d = ohcount_sourcefile_diff(s, s); ohcount_loc_delta_list_free(d); PP::evs.clear(); ohcount_sourcefile_parse_with_callback(s, PP::cb, 0); ohcount_sourcefile_parse_entities_with_callback(s, PP::cb, 0); break; }
  }
  ohcount_sourcefile_free(s);
}
int main(int argc, char **argv) {
  H::init(argc, argv); PP::setup();
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  if (H::replaying) {
    std::string c = H::replay_case; size_t k = c.find('|');
    if (c[0] == '!') { history(c.substr(1)); return H::done(); }
    if (c[0] == '@') { size_t e = c.rfind('|'); ask(H::unesc(c.substr(1, k - 1)), H::unesc(c.substr(k + 1, e - k - 1)), c.substr(e + 1).c_str()); return H::done(); }
    std::string t = H::unesc(c.substr(k + 1)), l = c.substr(0, k); for (auto x : ALL_LANGS) if (l == x) check(x, t.data(), t.size()); return H::done();
  }
  long budget = th ? 3000000 : 60000;
  for (int l = 0; l < N_LANGS; l++) {
    const char *lang = ALL_LANGS[l];
    for (int pass = 0; pass < 3; pass++) {
      auto T = tokens_of(lang, pass == 1);
      if (pass == 2) { T.push_back("\r"); T.push_back("\r\n"); T.push_back("\f"); T.push_back("\t"); T.push_back(std::string(1, 0)); T.push_back("1"); T.push_back("\xff"); T.push_back("."); }
      int k = T.size(), depth = 0; long tot = 1, pw = 1;
      while (tot + pw * k <= budget) { pw *= k; tot += pw; depth++; }
      if (H::shard == 0) { H::stats["depth_" + std::to_string(depth)]++; }
      char buf[512]; long c = 0;
      std::function<void(int, int)> rec = [&](int d, int n) {
        if (d >= 2 || H::shard == 0) check(lang, buf, n);
        if (d == depth) return;
        for (int i = 0; i < k; i++) {
          if (d == 1 && c++ % H::nshards != H::shard) continue;
          memcpy(buf + n, T[i].data(), T[i].size()); rec(d + 1, n + T[i].size());
        }
      };
      rec(0, 0);
    }
    if (l % H::nshards != H::shard) continue;
    const char *pre[] = {"", "a", " ", "a\n", "\n", "//", "#", "\"", "'", "/*", "<"}, *post[] = {"", "a", "\n", "\"\na", "'\na"};
    for (int x = 0; x < 256; x++) for (auto p : pre) for (auto q : post) { std::string t = std::string(p) + (char)x + q; check(lang, t.data(), t.size()); }
    for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y += th ? 1 : 5) { char t[8] = {(char)x, (char)y, 0, 0}; check(lang, t, 2); }
  }
  // names
  std::vector<std::string> NT = {".", "/", "\\", "a", "c", "\xff", ".in", "h", "m", ".PY", " "};
  std::vector<std::string> texts = {"", "x", "#!", "-*-", "-*- c", "#!\n-*-", "\n", "//", "/* gpl", "include \"", "<%@", ":", "@", "rem"};
  long c = 0;
  std::function<void(const std::string &, int)> nm = [&](const std::string &s, int d) { if (c++ % H::nshards == H::shard) for (auto &t : texts) ask(s, t, c % 2 ? "data" : "x script"); if (d) for (auto &t : NT) nm(s + t, d - 1); };
  nm("", th ? 4 : 3);
  // long names and lines: every length around the sizes of the library's buffers
  std::vector<int> lens; for (int b : {16, 32, 64, 80, 81, 100, 128, 255, 256, 512, 1024, 4096}) for (int k = -4; k <= 4; k++) lens.push_back(b + k);
  std::vector<std::string> exts = {"", ".c", ".m", ".h", ".in", ".h.in", ".pp", ".pl", ".b", ".bas", ".f", ".fs", ".st", ".rs", ".r", ".cs", ".def", ".dat", ".aspx", ".asx", ".mod", ".pro", ".inc", ".xyz", ".jpg"};
  std::vector<std::string> fills = {"a", " ", "-", "#", "*", "'", "(", ":", "@", "1", "\t", "&", "%", "\"", "_", "/", ".", "<", "$", ";", "end ", "include ", "a:", "mode ", "\xe9"};
  for (auto &e : exts) for (int n : lens) for (auto &f : fills) {
    if (c++ % H::nshards != H::shard) continue; if (!th && n > 260 && n % 4) continue;
    std::string r; while ((int)r.size() < n) r += f; r.resize(n);
    ask("x" + e, r, "data"); ask("x" + e, r + "\n" + r, "data"); ask("x" + e, "#!" + r + "\n" + r, "data"); ask("x" + e, "-*- " + r, "data"); ask("x" + e, "-*- mode: " + r + " -*-", "data"); ask("x" + e, "\r\n\n" + r + "\r", "data");
    std::string nn; while ((int)nn.size() < n) nn += isgraph(f[0]) && f != "/" ? f : "b"; nn.resize(n); ask(nn + e, "x", "data"); ask("d/" + nn + e, "#!x", "data"); ask(nn + "/y" + e, "", "data");
    ask("y", "x", r.c_str()); ask("y", "x", (r + " script").c_str()); ask("y", "x", ("script text for " + r).c_str());
  }
  // histories of setters and questions
  int hd = th ? 6 : 5; std::string ops; std::function<void()> hist = [&] { if (!ops.empty() && c++ % H::nshards == H::shard) history(ops); if ((int)ops.size() < hd) for (char o : HOPS) { ops += o; hist(); ops.pop_back(); } };
  hist();
  if (H::shard == 0) { H::sample("@x.m.in|-*- mode: c|data"); H::sample("c|\"\\\\"); }
  return H::done();
}
