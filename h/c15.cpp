// C15: the command-line program on every sequence of pool files and on every argument list; its reports against the pool's known lines.
#include "report.h"
#include "magicstub.h"
#include <sys/stat.h>
#include <dirent.h>
static void mkpool() {
  string c = "code", m = "comment", b = "blank";
  pf("a.c", "c", {{"c", c, "int a;\n"}});
  pf("b.c", "c", {{"c", m, "/* x */\n"}, {"c", b, "\n"}, {"c", c, "int b; // y\n"}, {"c", c, "\tfoo(\"%s%n\");"}}); // no line end
  pf("z.rb", "ruby", {{"ruby", m, "# c\r\n"}, {"ruby", c, "puts 1\r\n"}, {"ruby", b, "\r\n"}});
  pf("p.php", "php", {{"html", c, "<p>\n"}, {"php", c, "<?php\n"}, {"php", m, "  // x\n"}, {"php", c, "  $a = 1; ?>\n"}, {"html", b, "\n"}, {"html", m, "<!-- y -->\n"}, {"html", c, "</p>\n"}});
  pf("w.html", "html", {{"html", c, "<html>\n"}, {"html", c, "<style type='text/css'>\n"}, {"css", m, "/* c */\n"}, {"css", c, "p {}\n"}, {"html", c, "</style>\n"}, {"html", c, "<script type='text/javascript'>\n"}, {"javascript", m, "// j\n"}, {"javascript", c, "f();\n"}, {"javascript", c, "g();\n"}, {"javascript", c, "h();\n"}, {"javascript", c, "i();\n"}, {"html", c, "</script>\n"}, {"html", c, "</html>\n"}});
  pf("note.xyz", "", {}); pool.back().content = "some text\n";
  pf("pic.jpg", "", {}); pool.back().content = "int a;\n";
  pf("empty.c", "c", {});
  pf("only.py", "python", {{"python", b, "\n"}, {"python", b, "\r\n"}});
  pf("lic.c", "c", {{"c", m, "// GNU General Public License\n"}, {"c", m, "/* MIT License */\n"}, {"c", c, "int l;\n"}}, {"gpl", "mit"});
  pf("one lic.rb", "ruby", {{"ruby", m, "# MIT License\n"}}, {"mit"});
  pf("nul.c", "c", {{"c", c, string("s = \"a\0b\";\n", 11)}, {"c", m, string("// \0\n", 5)}, {"c", c, "int c;\n"}});
  pf("t.cs", "clearsilver_template", {{"html", c, "<p>\n"}, {"clearsilver", c, "<?cs if:a ?>\n"}, {"html", c, "x\n"}});
  pf("cr.c", "c", {{"c", c, "int a;\r"}, {"c", c, "int b;\f"}, {"c", m, "// x\r\n"}, {"c", b, "\r"}, {"c", c, "c;\n"}});
  pf("blank.c", "c", {{"c", b, "\n"}}); pf("comment.c", "c", {{"c", m, "// x\n"}}); pf("blank.rb", "ruby", {{"ruby", b, " "}}); pool.back().lines.clear();
  pf("j.jsp", "jsp", {{"html", c, "<script type='text/javascript'>\n"}, {"javascript", c, "var x;\n"}, {"html", c, "</script>\n"}, {"html", c, "<%\n"}, {"java", c, "int y;\n"}, {"html", c, "%>\n"}});
  pf("com.sh", "shell", {{"shell", m, "# x\n"}, {"shell", m, "# y"}});
  pf("long.pas", "pascal", {{"pascal", c, rep("x := 1; ", 1000) + "\n"}, {"pascal", m, "{ y }\n"}});
  vector<Line> many; for (int i = 0; i < 1234; i++) many.push_back({"java", c, "int a" + std::to_string(i) + ";\n"}); for (int i = 0; i < 99; i++) many.push_back({"java", m, "// " + rep("y", i) + "\n"}); many.push_back({"java", b, "\n"});
  pf("Many.java", "java", many);
}
static std::map<string, char> flags = {{"-a", 'a'}, {"--annotate", 'a'}, {"-d", 'd'}, {"--detect", 'd'}, {"-h", 'h'}, {"--help", 'h'}, {"-i", 'i'}, {"--individual", 'i'}, {"-l", 'l'}, {"--license", 'l'}, {"-re", 'r'}, {"-s", 's'}, {"--summary", 's'}};
static std::map<string, vector<Files>> args_of; // path argument -> its files in every order a directory listing may have
static void orders(vector<Files> &r, Files f) { std::sort(f.begin(), f.end(), [](auto &a, auto &b) { return a.first < b.first; }); do r.push_back(f); while (std::next_permutation(f.begin(), f.end(), [](auto &a, auto &b) { return a.first < b.first; })); }
static void check(const vector<string> &args) {
  string cas; for (auto &a : args) cas += a + "|"; H::set_case(H::esc(cas)); H::progress++; H::stat("runs")++;
  char cmd = 's'; size_t i = 0; if (!args.empty() && flags.count(args[0])) { cmd = flags[args[0]]; i = 1; }
  string bad; vector<Files> alts = {{}}; vector<string> paths(args.begin() + i, args.end()); if (paths.empty()) paths.push_back("\1cwd");
  for (auto &p : paths) { auto k = args_of.find(p); if (k == args_of.end()) { bad += "Bad argument: " + p + "\n"; continue; } vector<Files> n; for (auto &a : alts) for (auto &b : k->second) { n.push_back(a); n.back().insert(n.back().end(), b.begin(), b.end()); } alts.swap(n); }
  int rc; string out = run(args, rc); H::stat("transitions") += 1 + paths.size();
  if (rc != 0) { H::viol("exit", H::esc(cas), "exit status " + std::to_string(rc)); return; }
  if (out.compare(0, bad.size(), bad) != 0) { H::viol("arguments", H::esc(cas), "output does not start with '" + H::esc(bad) + "': " + H::esc(out.substr(0, 300))); return; }
  out = out.substr(bad.size()); string e; for (auto &a : alts) { e = judge(cmd, out, a); if (e.empty()) return; }
  H::viol(string("report-") + cmd, H::esc(cas), "output " + H::esc(out.substr(0, 300)) + ": " + e.substr(0, 300));
}
static long n_ = 0; static bool mine() { return n_++ % H::nshards == H::shard; }
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard(60); H::set_case("setup|"); mkpool(); MS::answer = "data";
  char tmpl[] = "/tmp/c15.XXXXXX"; dir = mkdtemp(tmpl); if (chdir(dir.c_str())) return 4;
  for (auto &p : pool) { put(p.name, p.content); args_of[p.name] = {{{p.name, &p}}}; }
  // for argument lists: trees, links, odd names
  auto P = [&](const char *n) { for (auto &p : pool) if (p.name == n) return (const PF *)&p; abort(); };
  mkdir("T", 0755); mkdir("T/sub", 0755); mkdir("T/.hid", 0755); mkdir("T/empty", 0755); mkdir("V", 0755); mkdir("V/d.c", 0755); mkdir("W", 0755);
  put("T/x.c", P("b.c")->content); put("T/sub/y.html", P("w.html")->content); put("T/.hid/q.c", P("a.c")->content); put("V/d.c/.dot.rb", P("z.rb")->content); put("W/-a", P("note.xyz")->content);
  (void)!symlink("x.c", "T/link.c"); (void)!symlink("sub", "T/slink"); (void)!symlink("T/x.c", "flink.c"); (void)!symlink("T", "tlink"); (void)!symlink("nothing", "dead.c"); (void)!symlink("..", "T/up"); mkfifo("T/fifo.c", 0600);
  put("-x.c", P("a.c")->content); put("-i", P("a.c")->content); mkdir("C", 0755); put("C/l.rb", P("one lic.rb")->content);
  auto fset = [&](const string &arg, const Files &f) { vector<Files> r; orders(r, f); args_of[arg] = r; };
  PF *lx = new PF(*P("one lic.rb"));
  vector<string> paths;
  for (string d : vector<string>{"T", "T/", "./T", "tlink", dir + "/T", "T/sub/..", "T/.", "T//"}) fset(d, {{d + "/x.c", P("b.c")}, {d + "/sub/y.html", P("w.html")}});
  for (string d : {"T/sub", "T/slink", "T/sub/."}) fset(d, {{d + "/y.html", P("w.html")}});
  fset("T/.hid", {{"T/.hid/q.c", P("a.c")}}); fset("T/empty", {}); fset("V", {{"V/d.c/.dot.rb", P("z.rb")}}); fset("W", {{"W/-a", P("note.xyz")}}); fset("C", {{"C/l.rb", lx}});
  for (string f : {"flink.c", "T/x.c", "./b.c", "T/../b.c", "T/link.c"}) fset(f, {{f, P("b.c")}});
  for (string f : {"-x.c", "./a.c"}) fset(f, {{f, P("a.c")}});
  for (string f : {"-i", "./-i"}) fset(f, {{f, P("note.xyz")}}); // as a path; its name has no extension
  vector<PF *> big, langs;
  auto mk = [&](vector<PF *> &v, const string &n, const string &lang, const vector<Line> &lines) { pf(n, lang, lines); v.push_back(new PF(pool.back())); pool.pop_back(); put(n, v.back()->content); args_of[n] = {{{n, v.back()}}}; };
  { vector<Line> l; auto more = [&](const char *lang, const char *k, const char *t, int n) { while (n--) l.push_back({lang, k, t}); };
    more("c", "code", "x;\n", 100003); more("c", "comment", "// y\n", 70001); more("c", "blank", "\n", 33334); mk(big, "big1.c", "c", l);
    l.clear(); more("ruby", "blank", "\n", 65537); more("ruby", "code", "x\n", 1); mk(big, "big2.rb", "ruby", l);
    l.clear(); more("css", "comment", "/* x */\n", 99999); mk(big, "big3.css", "css", l);
    l.clear(); more("html", "code", "<p>\n", 9); for (int i = 0; i < 4000; i++) { more("html", "code", "<style type='text/css'>\n", 1); more("css", "code", "p {}\n", 17); more("html", "code", "</style>\n", 1); } mk(big, "big4.html", "html", l);
    l.clear(); l.push_back({"c", "code", rep("x", 70000) + "\n"}); l.push_back({"c", "comment", "// " + rep("%s ", 40000) + "\n"}); l.push_back({"c", "code", rep(" y;", 50000) + "\n"}); mk(big, "wide.c", "c", l); }
  struct { const char *ext, *lang, *code, *com; } LG[] = {{"adb", "ada", "x;", "-- y"}, {"as", "actionscript", "x;", "// y"}, {"asm", "assembler", "mov ax", "; y"}, {"awk", "awk", "x", "# y"}, {"bat", "bat", "x", "rem y"}, {"boo", "boo", "x", "# y"}, {"cmake", "cmake", "x()", "# y"},
    {"cpp", "cpp", "x;", "// y"}, {"css", "css", "p {}", "/* y */"}, {"d", "dmd", "x;", "// y"}, {"dylan", "dylan", "x;", "// y"}, {"ebuild", "ebuild", "x", "# y"}, {"erl", "erlang", "x.", "% y"}, {"factor", "factor", "x", "! y"}, {"go", "golang", "x", "// y"}, {"groovy", "groovy", "x", "// y"},
    {"hs", "haskell", "x", "-- y"}, {"hx", "haxe", "x;", "// y"}, {"java", "java", "x;", "// y"}, {"js", "javascript", "x;", "// y"}, {"lua", "lua", "x", "-- y"}, {"lisp", "lisp", "(x)", "; y"}, {"ml", "ocaml", "x", "(* y *)"}, {"nix", "nix", "x", "# y"}, {"pas", "pascal", "x;", "{ y }"},
    {"pike", "pike", "x;", "// y"}, {"py", "python", "x", "# y"}, {"rb", "ruby", "x", "# y"}, {"rexx", "rexx", "x", "/* y */"}, {"scala", "scala", "x", "// y"}, {"scm", "scheme", "(x)", "; y"}, {"sh", "shell", "x", "# y"}, {"sql", "sql", "x;", "-- y"}, {"tcl", "tcl", "x", "# y"}, {"tex", "tex", "x", "% y"},
    {"vala", "vala", "x;", "// y"}, {"vim", "vim", "x", "\" y"}, {"xml", "xml", "<x/>", "<!-- y -->"}, {"xsl", "xslt", "<x/>", "<!-- y -->"}, {"xsd", "xmlschema", "<x/>", "<!-- y -->"}};
  { int k = 0; for (auto &g : LG) { vector<Line> l; k++; string L = g.lang; for (int i = 0; i < 1 + k * 17 % 23; i++) l.push_back({L, "code", string(g.code) + "\n"}); for (int i = 0; i < k % 4; i++) l.push_back({L, "comment", string(g.com) + "\n"}); for (int i = 0; i < k % 3; i++) l.push_back({L, "blank", "\n"}); mk(langs, string("l.") + g.ext, g.lang, l); } }
  std::set<string> extra; for (auto v : {&big, &langs}) for (auto x : *v) extra.insert(x->name);
  auto cleanup = [&] { if (chdir("/")) return; string c = "rm -rf '" + dir + "'"; (void)!system(c.c_str()); };
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  vector<string> spell; for (auto &f : flags) spell.push_back(f.first);
  if (H::replaying) {
    vector<string> a; string c; for (char x : H::unesc(H::replay_case)) if (x == '|') { a.push_back(c); c.clear(); } else c += x;
    if (!a.empty() && a[0] == "@C") { if (chdir("C")) return 4; args_of["\1cwd"] = {{{"./l.rb", lx}}}; a.erase(a.begin()); }
    check(a); cleanup(); return H::done();
  }
  // every sequence of pool files under every command
  vector<string> one = {"-a", "-d", "-i", "-l", "-re", "-s"};
  std::function<void(vector<string> &, int)> rec = [&](vector<string> &a, int d) {
    if (a.size() > 1 || (a.size() == 1 && !flags.count(a[0]))) if (mine()) check(a);
    if (d) for (auto &p : pool) { a.push_back(p.name); rec(a, d - 1); a.pop_back(); } };
  for (auto &f : one) { vector<string> a = {f}; rec(a, th ? 4 : 3); }
  for (auto &f : spell) { vector<string> a = {f}; rec(a, 2); } { vector<string> a; rec(a, 2); }
  // every argument list
  vector<string> items; for (auto &a : args_of) if (!extra.count(a.first) && std::none_of(pool.begin(), pool.end(), [&](PF &p) { return p.name == a.first; })) items.push_back(a.first);
  for (string s : {"a.c", "b.c", "w.html", "note.xyz", "empty.c", "missing.c", "missing/", "dead.c", "-x", "--annotat", "--annotatex", "-A", "--", "-", "-r", "-ree", "", "a.c/", "--summary ", "annotate"}) items.push_back(s);
  vector<string> first = items; for (auto &f : spell) { items.push_back(f); first.push_back(f); }
  std::sort(first.begin(), first.end()); first.erase(std::unique(first.begin(), first.end()), first.end()); std::sort(items.begin(), items.end()); items.erase(std::unique(items.begin(), items.end()), items.end());
  for (auto &a : first) for (auto &b : items) { if (mine()) check({a, b}); for (auto &c : items) if (mine() && (th || !flags.count(a) || a[1] != '-')) check({a, b, c}); }
  if (th) { vector<string> few = {"a.c", "T", "b.c", "missing.c", "-i", "T/empty", "W", "C", "-s", "-x", "V"}; for (auto &a : first) for (auto &b : few) for (auto &c : few) for (auto &d : few) if (mine()) check({a, b, c, d}); }
  for (auto &a : first) if (args_of.count(a) && !flags.count(a)) if (mine()) check({a});
  // large files, many files, many languages
  for (auto &f : one) {
    auto go = [&](const vector<string> &paths) { if (!mine()) return; vector<string> a = {f}; a.insert(a.end(), paths.begin(), paths.end()); check(a); };
    for (auto &x : big) { go({x->name}); go({"b.c", x->name, "p.php", x->name}); }
    for (size_t k : {50, 257, 1000}) for (auto &p : pool) if (p.lines.size() < 100) go(vector<string>(k, p.name));
    for (size_t from = 0; from < pool.size(); from++) { vector<string> v; for (size_t k = 0; k < 300; k++) { auto &p = pool[(from + k * 7) % pool.size()]; if (p.lines.size() < 100) v.push_back(p.name); } go(v); }
    for (auto &l : langs) { go({l->name}); for (auto &m : langs) go({l->name, m->name}); }
    for (size_t n = 1; n <= langs.size(); n++) { vector<string> v; for (size_t k = 0; k < n; k++) v.push_back(langs[k]->name); go(v); std::reverse(v.begin(), v.end()); go(v); for (auto &x : vector<string>(v)) v.push_back(x); go(v); }
  }
  // without a path: the working directory
  if (H::shard == 0) { if (chdir("C")) return 4; auto keep = args_of; args_of.clear(); args_of["\1cwd"] = {{{"./l.rb", lx}}}; check({}); for (auto &s : spell) check({s}); args_of = keep; if (chdir("..")) return 4; 
    H::sample("-i|w.html|Many.java|"); H::stat("pool") = pool.size(); H::stat("items") = items.size(); }
  cleanup(); return H::done();
}
