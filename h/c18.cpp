// C18: what the library reports for enumerated files, lists and histories; h/c18.rb does the same through the Ruby objects.
// Prints lines: case TAB expected results.
#include "h.h"
#include <sys/stat.h>
extern "C" {
#include "detector.h"
#include "languages.h"
#include "licenses.h"
#include "loc.h"
#include "sourcefile.h"
#include "structs.h"
LocDeltaList *ohcount_sourcefile_diff(SourceFile *, SourceFile *);
}
using std::string; using std::vector;
static string dir; static const string NIL = "~";
static string S(const char *s) { return s ? string("'") + s : NIL; }
static string I(long n) { return std::to_string(n); }
static void put(const string &n, const string &t) { FILE *f = fopen((dir + "/" + n).c_str(), "wb"); if (!f) { perror(n.c_str()); exit(4); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
struct Spec { string name, contents, loc; vector<string> fn; bool hc, hl, hf; };
static string spec_str(const Spec &s) { string f; for (auto &x : s.fn) f += x + ","; return s.name + "|" + (s.hc ? "'" + H::esc(s.contents) : NIL) + "|" + (s.hl ? "'" + s.loc : NIL) + "|" + (s.hf ? "'" + f : NIL); }
static char **names(const vector<string> &v) { char **r = (char **)calloc(v.size() + 1, sizeof(char *)); for (size_t i = 0; i < v.size(); i++) r[i] = strdup(v[i].c_str()); return r; }
static SourceFile *make(const Spec &s) {
  SourceFile *f = ohcount_sourcefile_new(s.name.c_str());
  if (s.hc) ohcount_sourcefile_set_contents(f, s.contents.c_str());
  if (s.hl) ohcount_sourcefile_set_diskpath(f, (dir + "/" + s.loc).c_str());
  if (s.hf) f->filenames = names(s.fn);
  return f;
}
static string strip(string s) { size_t p; while ((p = s.find(dir)) != string::npos) s.replace(p, dir.size(), "$"); return s; }
static string breakdowns(SourceFile *f) { string r; for (ParsedLanguageList *i = ohcount_sourcefile_get_parsed_language_list(f)->head; i; i = i->next) r += S(i->pl->name) + "/" + S(i->pl->code) + "/" + S(i->pl->comments) + "/" + I(i->pl->code_count) + "/" + I(i->pl->comments_count) + "/" + I(i->pl->blanks_count) + ";"; return r; }
static string breakdown(SourceFile *f, const string &n) { for (ParsedLanguageList *i = ohcount_sourcefile_get_parsed_language_list(f)->head; i; i = i->next) if (n == i->pl->name) return S(i->pl->code) + "/" + I(i->pl->comments_count); return NIL; }
static string locs(LocList *l) { string r; for (LocList *i = l->head; i; i = i->next) r += S(i->loc->language) + "/" + I(i->loc->code) + "/" + I(i->loc->comments) + "/" + I(i->loc->blanks) + "/" + I(i->loc->filecount) + "/" + I(ohcount_loc_total(i->loc)) + ";"; return r; }
static string deltas(LocDeltaList *l) { string r; for (LocDeltaList *i = l->head; i; i = i->next) { LocDelta *d = i->delta; r += S(d->language) + "/" + I(d->code_added) + "/" + I(d->code_removed) + "/" + I(d->comments_added) + "/" + I(d->comments_removed) + "/" + I(d->blanks_added) + "/" + I(d->blanks_removed) + ";"; } return r; }
static vector<SourceFile *> others; // kept until the end of the case
static string op(SourceFile *f, char o) {
  switch (o) {
  case 'C': return S(ohcount_sourcefile_get_contents(f));
  case 'P': return S(ohcount_sourcefile_get_language(f));
  case 'N': return I(ohcount_sourcefile_get_contents_size(f));
  case 'B': return breakdowns(f);
  case 'b': return breakdown(f, "c") + "," + breakdown(f, "html") + "," + breakdown(f, "nothing");
  case 'A': { string r; for (ParsedLanguageList *i = ohcount_sourcefile_get_parsed_language_list(f)->head; i; i = i->next) r += S(i->pl->name) + ";"; return r; }
  case 'I': { string r; for (LicenseList *i = ohcount_sourcefile_get_license_list(f)->head; i; i = i->next) r += S(i->lic->name) + ";"; return r; }
  case 'O': return locs(ohcount_sourcefile_get_loc_list(f));
  case 'F': { string r; if (f->filenames) for (char **p = f->filenames; *p; p++) r += S(*p) + ";"; return r + "|" + r; }
  case 'M': return S(f->filepath) + ";" + S(f->filename) + ";" + S(f->ext) + ";" + S(f->diskpath);
  case 'c': ohcount_sourcefile_set_contents(f, "// set\nint z;\n\n"); return "";
  case 'd': ohcount_sourcefile_set_diskpath(f, (dir + "/two.c").c_str()); return "";
  case 'f': f->filenames = names({"k.m", "Makefile", "k.h"}); return "";
  case 'D': { SourceFile *t = ohcount_sourcefile_new("o.c"); others.push_back(t); ohcount_sourcefile_set_contents(t, "int a;\n// y\nint b;\n\n"); return deltas(ohcount_sourcefile_diff(f, t)); }
  case 'd' + 1: { SourceFile *t = ohcount_sourcefile_new("o.c"); others.push_back(t); ohcount_sourcefile_set_contents(t, "int a;\n// y\nint b;\n\n"); return deltas(ohcount_sourcefile_diff(t, f)); }
  }
  abort();
}
static long n_ = 0; static const char *only = getenv("C18_ONLY");
static bool mine(const string &c) { return only ? c == only : n_++ % H::nshards == H::shard; }
static void print(const string &c, const string &exp) { printf("%s\t%s\n", c.c_str(), H::esc(strip(exp)).c_str()); }
static void run_case(const Spec &s, const string &ops, const char *gc) {
  string c = string(gc) + "|" + spec_str(s) + "|" + ops;
  if (!mine(c)) return;
  SourceFile *f = make(s); string r; for (char o : ops) r += op(f, o) + "\n"; print(c, r);
  ohcount_sourcefile_free(f); for (auto *t : others) ohcount_sourcefile_free(t); others.clear();
}
static string lop(SourceFileList *l, char o) {
  string r; int n = 0;
  switch (o) {
  case 'z': for (auto *i = l->head; i; i = i->next) n++; return I(n);
  case 'e': for (auto *i = l->head; i; i = i->next) r += S(i->sf->filename) + ";"; return r;
  case 's': for (auto *i = l->head; i; i = i->next) if (ohcount_sourcefile_get_language(i->sf)) r += S(i->sf->filepath) + "=" + S(ohcount_sourcefile_get_language(i->sf)) + ";"; return r;
  case 'a': { LocList *t = ohcount_sourcefile_list_analyze_languages(l); r = locs(t) + I(ohcount_loc_list_total(t)) + "," + I(ohcount_loc_list_code(t)) + "," + I(ohcount_loc_list_comments(t)) + "," + I(ohcount_loc_list_blanks(t)) + "," + I(ohcount_loc_list_filecount(t)); return r; }
  case '1': ohcount_sourcefile_list_add_directory(l, (dir + "/T").c_str()); return "";
  case '2': ohcount_sourcefile_list_add_file(l, (dir + "/two.c").c_str()); return "";
  case '3': ohcount_sourcefile_list_add_file(l, (dir + "/gone.py").c_str()); return "";
  case '4': ohcount_sourcefile_list_add_directory(l, (dir + "/T/sub").c_str()); return "";
  case '5': ohcount_sourcefile_list_add_directory(l, (dir + "/gone").c_str()); return "";
  }
  abort();
}
int main(int argc, char **argv) { // c18 shard n tier dir
  H::init(argc, argv); bool th = argc > 3 && !strcmp(argv[3], "thorough"); dir = argv[4];
  if (H::shard == 0) { // language names and file names
    vector<string> ns; for (const char *p : {"", "c", "C", "cp", "cpp", "cppp", "nothing", "ruby ", "vb", "\1"}) ns.push_back(p);
    FILE *f = popen(("grep -o 'LANG_[A-Z0-9_]* *\"[^\"]*\"' " + string(argv[5]) + "/src/languages.h | cut -d'\"' -f2").c_str(), "r"); char b[200]; while (fgets(b, sizeof b, f)) { string s = b; s.pop_back(); ns.push_back(s); } pclose(f);
    for (auto &x : ns) { auto *l = ohcount_hash_language_from_name(x.c_str(), x.size()); print("K|" + H::esc(x), l ? S(l->name) + ";" + S(l->nice_name) + ";" + I(l->category) : NIL); }
    for (string x : {"a.c", "a.png", "a.PNG", "x.jar", "README", ".png", "png", "a.tar.gz", "d.png/x.c", "", "a.", "a.dll.c"}) print("Y|" + x, I(ohcount_is_binary_filename(x.c_str()) == 1));
  }
  string gpl = "/* GNU General Public License */\n/* MIT License */\nint l;\n", html = "<html>\n<style type='text/css'>\n/* c */\np {}\n</style>\n</html>\n", cc = "int a;\n// x\xe4\xff\n\n  int b;\n", objc = "#import <x.h>\n@interface A\n@end\n";
  vector<Spec> specs; auto add = [&](string n, const char *c, const char *l, std::initializer_list<const char *> *fn) { Spec s; s.name = n; s.hc = c; if (c) s.contents = c; s.hl = l; if (l) s.loc = l; s.hf = fn; if (fn) for (auto *x : *fn) s.fn.push_back(x); specs.push_back(s); };
  std::initializer_list<const char *> none = {}, hm = {"x.h", "y.m", "z.m"}, hc = {"x.h", "y.cpp"}, one = {"a.c"}, mod = {"a.mod", "b.def"};
  add("a.c", cc.c_str(), 0, &one); add("a.c", "", 0, 0); add("dir/sub/a.c", gpl.c_str(), 0, &none); add("w.html", html.c_str(), 0, 0);
  add("x.h", "int q;\n", 0, &hm); add("x.h", "int q;\n", 0, &hc); add("x.h", objc.c_str(), 0, 0); add("y.m", "x = 1\n", 0, &hm); add("y.m", "x = 1\n", "two.c", 0);
  add("script", "#!/usr/bin/ruby\nputs 1\n", 0, &one); add("a.py", 0, "two.c", 0); add("a.py", 0, "gone", &hm); add("two.c", 0, 0, 0); add("gone.c", 0, 0, 0); add("n.xyz", "text\n", 0, 0); add("n.xyz", 0, "empty", 0);
  add("a.mod", "x\n", 0, &mod); add("Makefile", "all:\n\techo # c\n", "two.c", &one); add(".hidden", "x", 0, 0); add("a.c", gpl.c_str(), "two.c", &hm); add("t.rb", "# x", 0, 0); add("", "", 0, 0); add("a.", "int a;", 0, &none);
  string O = "CPNBbAIOFMcdfDe";
  std::function<void(const Spec &, string, int, const char *)> seq = [&](const Spec &s, string x, int d, const char *gc) { if (!x.empty()) run_case(s, x, gc); if (d) for (char o : O) seq(s, x + o, d - 1, gc); };
  for (auto &s : specs) { seq(s, "", 2, "g"); seq(s, "", th ? 4 : 3, "-"); }
  // everything of a file held while the file itself is dropped
  for (auto &s : specs) for (string x : {"B", "O", "I", "A", "C", "F", "M", "D", "PB", "BO", "OB", "CBO"}) run_case(s, x, "h");
  // lists
  string LO = "zesa12345"; std::function<void(string, int)> lseq = [&](string x, int d) { if (!x.empty()) for (string gc : {"g", "h", "-"}) for (string ctor : {"", "1", "2", "12", "145", "23", "33"}) { if (gc != "-" && x.size() > 2) continue; if (gc == "h" && x.find('s') == string::npos && x.find('a') == string::npos) continue; string c = "L" + gc + "|" + ctor + "|" + x; if (!mine(c)) continue;
      SourceFileList *l = ohcount_sourcefile_list_new(); string dirs, files; for (char o : ctor) (strchr("145", o) ? dirs : files) += o; for (char o : dirs + files) lop(l, o); string r; for (char o : x) r += lop(l, o) + "\n"; print(c, r); ohcount_sourcefile_list_free(l); }
    if (d) for (char o : LO) lseq(x + o, d - 1); }; lseq("", th ? 4 : 3);
  return 0;
}
