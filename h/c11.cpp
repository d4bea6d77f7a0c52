// C11: all short strings of markers, near-markers, blanks and line ends, with all companion names, for every ambiguous extension.
#include "h.h"
#include "rules.h"
#include "tables.h"
#include "magicstub.h"
extern "C" {
#include "sourcefile.h"
}
using std::string; using std::vector;
static std::set<string> cpph, cppe;
static bool differs = false;
static void check(const string &id, const string &filename, const string &s, const vector<string> &names) {
  string want = RU::rule(id, s, names, filename.substr(filename.rfind('/') == string::npos ? 0 : filename.rfind('/') + 1));
  if (want == "?") { H::stat("unspecified")++; return; }
  H::stat("files")++; H::progress++;
  static string cas; cas = id + "|" + filename + "|" + H::esc(s) + "|"; for (auto &n : names) cas += n + ",";
  H::set_case(cas);
  SourceFile *f = ohcount_sourcefile_new(filename.c_str()); ohcount_sourcefile_set_contents(f, s.c_str());
  vector<char *> v; for (auto &n : names) v.push_back((char *)n.c_str()); v.push_back(0); if (!names.empty()) f->filenames = v.data();
  MS::asked = 0; const char *l = ohcount_sourcefile_get_language(f); string got = l ? l : "";
  if (got != want) H::viol(id == "dat" && got == "\1" && want == "" ? "dat-binary" : "rule-" + id, cas, "language is '" + H::esc(got) + "' instead of '" + want + "'");
  if (MS::asked) H::viol("sniffer-" + id, cas, "the sniffer was asked");
  H::stat(want.empty() ? "none" : "language")++;
  ohcount_sourcefile_free(f);
}
struct R { const char *id; vector<string> exts, toks, names; int quick, thorough; };
static const vector<R> RS = {
  {"aspx", {"aspx", "ascx"}, {"<%@ Page", "<%@", "%>", " language=\"vb\"", " Language=\"VB\"", " language=\"c#\"", "\n", " page ", "<%@ Import", "<%", "x"}, {}, 5, 6},
  {"asx", {"asx"}, {" ", "\t", "\n", "\r", "<", "\xef", "\xfe", "\xff", ";", "a", "\f", "\xee"}, {}, 4, 6},
  {"b", {"b"}, {"implement", "implement ", "include \"a.m\";", "include\t\"a\"", "include a;", "return", ";", "break", "continue x;", "pick", "{", "case", "\n", " ", "10 print", "x", "\""}, {"a.frm", "b.c"}, 4, 5},
  {"basic", {"bas", "bi"}, {"10", " ", "\t", "print", "\n", "\r\n", "_", "20 x", "9", "'", "\r", string(80, ' '), string(79, 'x'), string(79, '1'), string(80, '1')}, {"a.frm", "a.frx", "x.vba", "x.vbp", "vbs", "y.vbs", "x.vb", "x.frms", "frm.x"}, 4, 5},
  {"cs", {"cs"}, {"<?cs", "<?", "cs", "<?c", "class A {}", "\n", " ", "<?CS", "<"}, {}, 5, 6},
  {"dat", {"dat"}, {" ", "\t", "\n", "\r", "/*", "/", "#", "data", "dat", "param", "p", "set", "se", "x", "DATA"}, {}, 4, 5},
  {"def", {"def"}, {" ", "\t", "\n", "\r", "(*", "(", "DEFINITION", "DEF", "definition", "MODULE", "x", "D"}, {}, 4, 5},
  {"mod", {"mod"}, {" ", "\t", "\n", "\r", "(*", "(", "IMPLEMENTATION", "IMP", "MODULE", "MOD", "module", "x", "I", "M"}, {}, 4, 5},
  {"fs", {"fs"}, {"\\ ", "\\", ": ", ":", "|", "let ", "let", "type ", "//", " ", "\n", "\r", "x"}, {}, 5, 6},
  {"fortran", {"f", "for", "f77", "f90", "f95", "f03", "f08", "ftn", "fpp"}, {" ", "\t", "1", "0", "C", "c", "*", "!", "x", "&", "'", "\"", "\n", "\r\n", "    ", "     ", string(60, 'a'), string(66, ' ')}, {}, 4, 5},
  {"h", {"h"}, {"#include <vector>\n", "#include <stdio.h>\n", "# include \t\"a.hpp\"\n", "#include \"a.h\"\n", "#includes <vector>\n", " #include <map>", "#include <a.b>", "class", "namespace", "template", "typename", "klass", "_", "x", " ", "\n", "\r", "<", "A", "1", string(70, ' '), string(75, '-'), string(80, '.')}, {"x.m", "x.c", "y.m", "X.m", "x.mm", ".m"}, 3, 4},
  {"inc", {"inc"}, {"?php", "?", "php", "<", "?ph", "\n", " ", "p", "?PHP"}, {}, 5, 6},
  {"m", {"m"}, {"%", "# ", "##", "#import", "//", "/*", "+", "-", "@interface", "@implementation", "@", "function (", "function x", "include \"a.m\";", "include \"a.h\"", "endfunction", "end_try_catch", "endwhile", "end", ": module", ":\tadt", ": fn(", ": fn (", ": con ", ": cons", "&)", "& ,", "& x", "(*", "/.", "__", "@@", "\n", " ", "x", "_"}, {"a.h", "a.c", "a.cpp", "a.cc", "b.hh", "a.C", "a.c++", "a.cxx", "x.m", ".h", "c", "a.hc"}, 3, 4},
  {"pp", {"pp"}, {"ensure", "content =>", "notify  =>", " => ", "define foo", "define ", "(", "class a", "class ", " inherits b", " inherits", "{", "node 'a.b'", "node", "import \"", "import x", "include ", "include \"x", "'", "\n", " ", "\t", "x", "::"}, {}, 4, 5},
  {"pl", {"pl"}, {"#!", "#! ", "/usr/bin/perl", "PERL", "perl", ":- ", ":-", ":-\n", "\n", " ", "x", "\r", "/bin/sh", string(95, '/'), ": -"}, {}, 4, 5},
  {"pro", {"pro"}, {"SOURCES +=", "SOURCES+=", "CONFIG +=", "CONFIG+=", "SOURCES", " +=", "  +=", "config+=", "\n", " ", "x", "SOURCES ="}, {}, 4, 5},
  {"r", {"r"}, {"rebol", "REBOL", "Rebol", "re", "bol", "REB", "\n", " ", "x", "r", "<-"}, {}, 5, 6},
  {"rs", {"rs"}, {"#pragma version", "#pragma version(1)", "#pragma", " version", "\n", " ", "x", "// c", "\n#pragma version", "#pragma  version"}, {}, 5, 6},
  {"st", {"st"}, {":=", ": =", ":\t=", ": [", ":[", "].", "]", ".", "=", "[", ": ", ":", "x", "\n", "\r", " ", string(78, 'x')}, {}, 4, 5},
};
static long n_ = 0; static bool mine() { return n_++ % H::nshards == H::shard; }
static const R *rule_of(const string &id) { for (auto &r : RS) if (id == r.id) return &r; return nullptr; }
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard(60); H::set_case("setup||||");
  for (auto &r : TB::CPPH) cpph.insert(r[0]); for (auto &r : TB::EXT) if (!strcmp(r[1], "cpp")) cppe.insert(r[0]); RU::cppheaders = &cpph; RU::cppexts = &cppe;
  if (H::replaying) {
    vector<string> v; string c; for (char x : H::replay_case + "|") if (x == '|' && v.size() != 2) { v.push_back(c); c.clear(); } else if (v.size() == 2 && x == '|') { c += x; } else c += x;
    // rule|file|contents|names, : contents may hold bars
    string &rc = H::replay_case; size_t a = rc.find('|'), b = rc.find('|', a + 1), e = rc.rfind('|'); vector<string> n; string cur; for (char x : rc.substr(e + 1)) if (x == ',') { n.push_back(cur); cur.clear(); } else cur += x;
    check(rc.substr(0, a), rc.substr(a + 1, b - a - 1), H::unesc(rc.substr(b + 1, e - b - 1)), n); return H::done();
  }
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  for (auto &r : RS) {
    string file = string("x.") + r.exts[0]; vector<string> none;
    // all token strings
    std::function<void(const string &, int)> rec = [&](const string &s, int d) {
      if (d == 0) { if (mine()) check(r.id, file, s, none); return; }
      if (mine()) check(r.id, file, s, none);
      for (auto &t : r.toks) rec(s + t, d - 1);
    };
    rec("", th ? r.thorough : r.quick);
    // shorter strings: every extension of the rule, places in the file, line ends, companions
    int D = th ? 3 : 2;
    std::function<void(const string &, int)> rec2 = [&](const string &s, int d) {
      if (mine()) {
        for (auto &e : r.exts) { check(r.id, "x." + e, s, none); check(r.id, "d.e/a.b." + e, s, none); string up = e; for (char &c : up) c = toupper(c); bool known = false; for (auto &x : TB::EXT) if (up == x[0]) known = true; if (!known) check(r.id, "x." + up, s, none); }
        for (string pre : {string(200, ' ') + "\n", string(3000, '\n'), string("x\n"), string("\n"), string(9990, ' ') + "\n", string(120, 'x') + "\n"}) { check(r.id, file, pre + s, none); check(r.id, file, s + pre, none); check(r.id, file, s + pre + s, none); }
        for (string nl : {"\r\n", "\r"}) { string q; for (char c : s) if (c == '\n') q += nl; else q += c; check(r.id, file, q + nl, none); }
        // companions: all pairs in both orders, and all together
        for (auto &a : r.names) { check(r.id, file, s, {a}); for (auto &b : r.names) check(r.id, file, s, {a, b}); for (auto &b : r.names) check(r.id, "sub/" + file, s, {"q", a, "some.thing", b}); }
        if (!r.names.empty()) { check(r.id, file, s, r.names); auto w = r.names; std::reverse(w.begin(), w.end()); check(r.id, file, s, w); }
      }
      if (d) for (auto &t : r.toks) rec2(s + t, d - 1);
    };
    rec2("", D);
    // every marker at every column around the limit of 80 characters and around 100 and 10000 bytes
    for (auto &t : r.toks) { for (int k = 0; k < 130; k++) for (char fill : {' ', 'x', '('}) if (mine()) { check(r.id, file, string(k, fill) + t, none); check(r.id, file, string(k, fill) + t + " x", none); for (auto &u : r.toks) check(r.id, file, u + string(k, fill) + t, none); }
      for (int k = 9950; k < 10010; k++) if (mine()) { check(r.id, file, string(k - 1, 'x') + "\n" + t + " x", none); check(r.id, file, string(k - 1, ' ') + "\n" + t, none); } }
    // all subsets of the companions
    if (r.names.size()) for (int m = 0; m < (1 << r.names.size()); m++) for (auto &t : vector<string>{"", r.toks[0], r.toks[1], "x"}) if (mine()) { vector<string> n; for (size_t i = 0; i < r.names.size(); i++) if (m >> i & 1) n.push_back(r.names[i]); check(r.id, file, t, n); }
  }
  // every C++ header and every extension included by a header, with every bracket and near-name
  for (auto &h : cpph) if (mine()) for (auto &v : vector<string>{h, h + "x", "x" + h, h + ".h", "x/" + h, h.substr(1), h + " "}) for (auto &q : vector<std::pair<string, string>>{{"<", ">"}, {"\"", "\""}}) for (string p : {"#include ", "#  include\t", "# include   ", " #include "}) check("h", "x.h", p + q.first + v + q.second + "\n", {});
  for (auto &r : TB::EXT) if (mine()) for (string p : {"#include <a.", "#include \"d.d/a.b.", "#include \"."}) for (string suf : {"", "x"}) check("h", "x.h", p + r[0] + suf + (p[9] == '<' ? ">" : "\""), {});
  // Objective C headers: names
  for (string f : {"x.h", "a/x.h", "a.b/x.y.h", ".h", "x.y.h", "h.h"}) if (mine()) for (string n : {"x.m", "x.y.m", ".m", "m", "h.m", "a/x.m", "x.mm", "x.h", "X.m", "x.M", "xm", "x.m "}) { string base = f.substr(f.rfind('/') == string::npos ? 0 : f.rfind('/') + 1); string want = n == base.substr(0, base.size() - 1) + "m" ? "objective_c" : "c"; 
      string cas = "h|" + f + "||" + n + ","; H::set_case(cas); SourceFile *s = ohcount_sourcefile_new(f.c_str()); ohcount_sourcefile_set_contents(s, "int a;"); char *v[] = {(char *)n.c_str(), 0}; s->filenames = v; const char *l = ohcount_sourcefile_get_language(s); if (!l || want != l) H::viol("rule-h", cas, string("language is ") + (l ? l : "none") + " instead of " + want); ohcount_sourcefile_free(s); H::stat("files")++; }
  // The in rule: a file is what it is without its .in
  for (auto &r : RS) for (auto &t : r.toks) for (auto &u : r.toks) for (string pre : {"x.", "a.d/x.", "d/x.y."}) if (mine()) {
    string s = t + u, file = pre + r.exts[0], want = RU::rule(r.id, s, r.names, file.substr(file.rfind('/') == string::npos ? 0 : file.rfind('/') + 1)); if (want == "?") continue;
    string cas = "in|" + file + ".in|" + H::esc(s) + "|"; for (auto &n : r.names) cas += n + ","; H::set_case(cas); H::stat("files")++;
    for (string in : {".in", ".IN", ".in.in"}) { SourceFile *f = ohcount_sourcefile_new((file + in).c_str()); ohcount_sourcefile_set_contents(f, s.c_str()); vector<char *> v; for (auto &n : r.names) v.push_back((char *)n.c_str()); v.push_back(0); if (!r.names.empty()) f->filenames = v.data();
      const char *l = ohcount_sourcefile_get_language(f); string got = l ? l : ""; if (got == "\1") got = ""; if (got != want) H::viol("rule-in", cas, "language of " + file + in + " is '" + H::esc(got) + "' instead of '" + want + "'"); 
      if (string(ohcount_sourcefile_get_contents(f)) != s) H::viol("rule-in", cas, "the contents changed"); ohcount_sourcefile_free(f); }
  }
  if (H::shard == 0) { H::stat("rules") = RS.size() + 1; H::sample("m|x.m|# \\nfunction (|a.h,"); H::sample("h|x.h|#include <vector>\\n|"); }
  return H::done();
}
