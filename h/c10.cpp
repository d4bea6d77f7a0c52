// C10: all combinations of name, content, mode line, sniffer answer and place of the content against the order of evidence.
#include "h.h"
#include "rules.h"
#include "tables.h"
#include "magicstub.h"
#include <sys/stat.h>
extern "C" {
#include "sourcefile.h"
#include "detector.h"
}
using std::string; using std::vector;
typedef std::map<string, string> Map;
static Map EXT, FILES, LANGS; static std::set<string> cpph, cppe;
static string get(const Map &m, const string &k) { auto i = m.find(k); return i == m.end() ? "" : i->second; }
static string base(const string &p) { size_t k = p.find_last_of("/\\"); return k == string::npos ? p : p.substr(k + 1); }
static string extension(const string &p) { string b = base(p); size_t k = b.rfind('.'); return k == string::npos ? "" : b.substr(k + 1); }
// What the sniffer's answer says: "?" when the documentation leaves it open
static string sniff(string a) {
  a = RU::low(a.substr(0, 79));
  auto word = [&](size_t i) { size_t e = i; while (RU::an(RU::ch(a, e))) e++; return a.substr(i, e - i); };
  if (RU::at(a, 0, "script text")) { size_t f = a.find("for "); if (f != string::npos) { string l = get(LANGS, word(f + 4)); if (!l.empty()) return l; } return ""; }
  size_t s = a.find("script");
  if (s != string::npos) { // the last word before "script" that is no switch
    for (size_t e = s;;) {
      if (e == 0) return "";
      if (a[e - 1] != ' ' || e < 2 || !RU::an(a[e - 2])) return "?"; // only "word -switches script" is documented
      e--; size_t b = e; while (b > 0 && RU::an(a[b - 1])) b--;
      if (b > 0 && a[b - 1] == '-') { if (b == e || (b > 1 && a[b - 2] != ' ')) return "?"; e = b - 1; continue; }
      return get(LANGS, a.substr(b, e - b));
    }
  }
  return RU::has(a, "xml") ? "xml" : "";
}
// The word of an emacs mode line: "" none, "?" left open
static string mode(const string &s) {
  size_t i = 0; string l;
  for (;;) { size_t e = s.find_first_of("\r\n", i); if (e == string::npos) e = s.size(); l = s.substr(i, e - i);
    if (l.substr(0, 2) == "#!") { if (RU::has(l, "-*-")) return "?"; while (e < s.size() && (s[e] == '\n' || s[e] == '\r')) e++; i = e; if (i >= s.size()) return ""; continue; } break; }
  if (l.size() > 80) l.resize(80);
  size_t p = l.find("-*-"); if (p == string::npos) return "";
  p += 3; while (RU::sp(RU::ch(l, p))) p++;
  if (RU::low(l.substr(p, 4)) == "mode") { if (RU::an(RU::ch(l, p + 4)) || RU::ch(l, p + 4) == '-') return "?"; p += 4; while (RU::sp(RU::ch(l, p)) || RU::ch(l, p) == ':') p++; }
  size_t e = p; while (e < l.size() && !RU::ws(l[e]) && l[e] != ';' && !RU::at(l, e, "-*-")) e++;
  return l.substr(p, e - p);
}
struct F { string name, content; vector<string> names; bool missing; };
static string expect(const F &f, const char *answer, bool &asked) {
  asked = false; string e = extension(f.name), v = get(EXT, e); if (v.empty()) v = get(EXT, RU::low(e));
  if (v.empty() && !f.missing) { string m = mode(f.content); if (m == "?") return "?"; if (RU::low(m) == "c") return "c"; for (auto &k : {m, RU::low(m)}) { if (v.empty()) v = get(LANGS, k); if (v.empty()) v = get(EXT, k); } }
  if (v.empty()) v = get(FILES, base(f.name));
  if (v.empty() && !f.missing) { asked = true; if (!answer) return "?"; v = sniff(answer); if (v == "?") return v; }
  if (v == "!") return "";
  if (v[0] != '?') return v;
  if (v == "?in") { if (f.missing) return ""; F g = f; if (f.name.size() < 3 || f.name.find('.') > f.name.size() - 3) return "?"; g.name = f.name.substr(0, f.name.size() - 3); bool a2; string r = expect(g, answer, a2); asked = a2; return r; }
  if (f.missing) return v == "?pp" || v == "?pl" || v == "?fs" || v == "?inc" || v == "?in" ? "" : RU::rule(v.substr(1), "", f.names, base(f.name));
  return RU::rule(v.substr(1), f.content, f.names, base(f.name));
}
enum Place { MEMORY, DISK, DISKPATH, NPLACE }; static const char *PN[] = {"memory", "disk", "diskpath"};
static string dir; static std::set<string> made;
static void put(const string &p, const string &t) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(4); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
static void check(F f, const char *answer, int place) {
  bool ask; string want = expect(f, answer, ask); if (want == "?") { H::stat("unspecified")++; return; }
  if (f.missing && place == DISKPATH && get(EXT, extension(f.name)).empty() && get(EXT, RU::low(extension(f.name))).empty() && get(FILES, base(f.name)).empty()) { H::stat("unspecified")++; return; } // the sniffer would fail
  static string cas; cas = string(PN[place]) + "|" + H::esc(f.name) + "|" + H::esc(f.content) + "|" + (answer ? answer : "") + "|"; for (auto &n : f.names) cas += n + ",";
  H::set_case(cas); H::progress++; H::stat("files")++;
  string path = f.name, other = dir + "/other.rb"; 
  if (place == DISK) { path = dir + "/" + f.name; if (!f.missing) put(path, f.content); }
  if (place == DISKPATH && !f.missing) put(other, f.content);
  SourceFile *s = ohcount_sourcefile_new(path.c_str());
  if (place == MEMORY) { if (f.missing) { ohcount_sourcefile_free(s); return; } ohcount_sourcefile_set_contents(s, f.content.c_str()); }
  if (place == DISKPATH) ohcount_sourcefile_set_diskpath(s, f.missing ? (dir + "/nothing").c_str() : other.c_str());
  vector<char *> v; for (auto &n : f.names) v.push_back((char *)n.c_str()); v.push_back(0); if (!f.names.empty()) s->filenames = v.data();
  MS::answer = answer; MS::asked = MS::opened = MS::closed = 0;
  const char *l = ohcount_sourcefile_get_language(s); string got = l ? l : "";
  if (got != want) H::viol(got == "\1" && want.empty() ? "dat-binary" : "language", cas, "language is '" + H::esc(got) + "' instead of '" + want + "'");
  if ((MS::asked > 0) != ask || MS::asked > 1) H::viol("sniffer", cas, "the sniffer is asked " + std::to_string(MS::asked) + " times");
  else if (ask && (MS::by_file ? place == MEMORY || MS::what != (place == DISKPATH ? other : path) : MS::what != f.content)) H::viol("sniffer-what", cas, "the sniffer is asked about '" + H::esc(MS::what) + "'");
  if (MS::opened != MS::closed) H::viol("sniffer-open", cas, "the sniffer is not closed");
  const char *l2 = ohcount_sourcefile_get_language(s); if (l2 != l) H::viol("again", cas, "a second question gives another answer");
  H::stat("transitions") += 1 + ask;
  ohcount_sourcefile_free(s);
  if (place == DISK && !f.missing) unlink(path.c_str());
}
static long n_ = 0; static bool mine() { return n_++ % H::nshards == H::shard; }
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard(60); H::set_case("setup||||");
  for (auto &r : TB::EXT) EXT[r[0]] = r[1]; for (auto &r : TB::FILES) FILES[r[0]] = r[1]; for (auto &r : TB::LANGS) LANGS[r[0]] = r[1];
  for (auto &r : TB::CPPH) cpph.insert(r[0]); for (auto &r : TB::EXT) if (!strcmp(r[1], "cpp")) cppe.insert(r[0]); RU::cppheaders = &cpph; RU::cppexts = &cppe;
  char tmpl[] = "/tmp/c10.XXXXXX"; dir = mkdtemp(tmpl); mkdir((dir + "/d.py").c_str(), 0700);
  auto cleanup = [&] { unlink((dir + "/other.rb").c_str()); rmdir((dir + "/d.py").c_str()); rmdir(dir.c_str()); };
  if (H::replaying) {
    string &c = H::replay_case; vector<size_t> b; for (size_t i = 0; i < c.size(); i++) if (c[i] == '|') b.push_back(i);
    size_t n = b.size(); F f; string pl = c.substr(0, b[0]); f.name = H::unesc(c.substr(b[0] + 1, b[1] - b[0] - 1)); f.content = H::unesc(c.substr(b[1] + 1, b[n - 2] - b[1] - 1)); string an = c.substr(b[n - 2] + 1, b[n - 1] - b[n - 2] - 1), cur; for (char x : c.substr(b[n - 1] + 1)) if (x == ',') { f.names.push_back(cur); cur.clear(); } else cur += x; f.missing = false;
    for (int p = 0; p < NPLACE; p++) if (pl == PN[p]) check(f, an.c_str(), p); cleanup(); return H::done();
  }
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  // names
  vector<string> names = {"x.c", "x.C", "x.py", "x.PY", "x.Py", "x.xyz", "noext", "x.", ".c", ".bashrc", "x.jpg", "x.JPG", "x.h", "x.H", "x.M", "x.m", "x.pl", "x.in", "x.py.in", "x.C.in", "x.jpg.in", "Makefile.in", "x.xyz.in", "x.in.in", "configure.in", "x.h.in", "Makefile", "makefile", "MAKEFILE", "Makefile.am", "Makefile.c", "x.Makefile", "CMakeLists.txt", "configure", "configure.ac", "Rakefile", "init.pp", "PKGBUILD", "script.utf8", "d.py/noext", "d.py/x.c", "d.py/Makefile", "a b.py", "x.c~", "x.tar.gz", "x.dat", "x.py.xyz", "x.exe", "x.R", "x.S", "x.PL", "x.CPP", "x.cPP", "python", "c", "x.c++", "x.exheres-0", "X.EXHERES-0", ".gitignore", "a.b\\c"};
  // contents: a mode line (or none) in a place, and something behind it
  vector<string> modes = {"", "-*- c -*-", "-*- C -*-", "-*-c-*-", "-*- C++ -*-", "-*- ruby -*-", "-*- Ruby -*-", "-*- RUBY -*-", "-*- mode: perl -*-", "-*- Mode: Perl; tab-width: 4 -*-", "-*-mode:python-*-", "-*- MODE\t:  tcl;x -*-", "-*- py -*-", "-*- PY -*-", "-*- jpg -*-", "-*- h -*-", "-*- m -*-", "-*- pl -*-", "-*- nothing -*-", "-*- -*-", "-*-", "-*- ; mode: c -*-", "-*- coding: utf-8 -*-", "-*- Makefile -*-", "-*- in -*-", "-*- c", "-*- C;", "-*- ruby;", "-*- clearsilver_template -*-", "-*- vb_aspx -*-", "-*-\tmode ruby -*-", "- * - ruby", "-*- sh", "-*- c++ -*-", "-*- H -*-", "-*- ada -*- -*- ruby -*-", string("-*- ") + string(70, 'c') + " -*-", string(70, ' ') + "-*- ruby -*-", string(72, ' ') + "-*- c -*-", string(78, '-') + "-*- c -*-", string(73, '#') + "-*- c -*-", string(80, ' ') + "-*- c -*-", string(68, ' ') + "-*- python -*-", "-*- rubyx -*-", "-*- mode: x; ruby -*-", "-*- mode:\truby;-*-"};
  vector<string> places = {"# %\n", "%", "/* % */\nint a;\n", "#!/bin/sh\n# %\n", "#!/bin/sh\r\n# %\r\n", "#!/bin/sh\n#!/bin/x\n% x\n", "#!/bin/sh\n\n\n# %\n", "x\n# %\n", "\n# %\n", "#! %\n# x\n", "#!/bin/sh\nx\n# %\n", "x", "#!/bin/sh", "", "#!/bin/sh\n", "#%\nclass x\n", "# %\r:- x\n:- \n", "#!a\r# %\r", "#! a\n%\n?php"};
  vector<const char *> answers = {"data", "ASCII text", "PHP script, ASCII text", "Python script text executable", "script text executable for perl -w,", "Script Text Executable for Perl", "script text executable for nothing", "a /usr/bin/ruby script text executable", "a ruby -w script text", "python -u -O script, ASCII text", "XML 1.0 document text", "exported SGML document, XML", "POSIX shell script, ASCII text executable", "Foo script", "script", " script", "- script", "-x script", "", "very long answer about nothing in particular that goes on for more than 79 ch PHP script", "very long answer about nothing in particular, with the language late: a PHP script", "html xml script text", "C source, ASCII text", "lisp/scheme script", "awk   script", "perl5 script", "script text for ruby script", "c++ script", "Lua script text", "xml script", "scripts for nothing", "Tcl/Tk script, UTF-8 Unicode text, with CRLF, CR, LF line terminators and more xml"};
  auto fill = [](string pl, const string &m) { size_t k = pl.find('%'); if (k == string::npos) return pl; return pl.substr(0, k) + m + pl.substr(k + 1); };
  // every name with every mode line in every place, and a few answers
  for (auto &n : names) for (auto &m : modes) for (auto &p : places) {
    if (p.find('%') == string::npos && m != modes[0]) continue; if (!mine()) continue;
    string c = fill(p, m);
    for (auto a : {"data", "PHP script, ASCII text", "XML 1.0"}) check({n, c, {}, false}, a, MEMORY);
    check({n, c, {}, false}, "Python script", DISKPATH);
    if (th || (n_ / H::nshards) % 4 == 0) { check({n, c, {"x.m", "a.h", "x.frm"}, false}, "data", MEMORY); if (n.find('\\') == string::npos) check({n, c, {}, false}, "awk script", DISK); }
  }
  // every answer with every name and few contents
  for (auto &n : names) for (auto a : answers) for (auto &c : vector<string>{"x\n", "", "# -*- ruby -*-\n", "#!/bin/sh\n", "-*- x -*-"}) for (int p = 0; p < NPLACE; p++) if (mine() && !(p == DISK && n.find('\\') != string::npos)) check({n, c, {}, false}, a, p);
  // files that cannot be read
  for (auto &n : names) for (auto a : {"data", "PHP script"}) for (int p : {DISK, DISKPATH}) if (mine()) { check({n, "", {}, true}, a, p); check({n, "", {"x.m", "a.h", "x.frm", "x.h"}, true}, a, p); }
  // every extension, language and file name: as extension (three spellings, with .in), as mode, as answer, as file name
  std::set<string> words; for (auto &r : TB::EXT) words.insert(r[0]); for (auto &r : TB::LANGS) words.insert(r[0]); for (auto &r : TB::FILES) words.insert(r[0]);
  for (auto &w : words) { if (!mine()) continue;
    string up = w, cap = w; for (char &c : up) c = toupper(c); cap[0] = toupper(cap[0]);
    for (auto &k : {w, up, cap, RU::low(w), w + "x", "x" + w}) {
      for (string c : {"x y\n", "", "class A\n", "-*- tcl -*-\n", "#!/usr/bin/perl\n# -*- java -*-\n"}) for (auto a : {"data", "sh script"}) { check({"f." + k, c, {}, false}, a, MEMORY); check({"d.c/" + k, c, {}, false}, a, MEMORY); check({"f." + k + ".in", c, {}, false}, a, MEMORY); check({"f.c." + k, c, {}, false}, a, DISKPATH); check({k + ".xyz", c, {}, false}, a, DISKPATH); }
      for (string n : {"noext", "x.xyz", "Makefile", "x.c", "x.h", "a.in"}) { for (string t : {"-*- % -*-", "/* -*- mode: %; x -*- */\n", "#!x\n-*-%-*-\nx"}) check({n, fill(t, k), {}, false}, "Lua script", MEMORY); 
        for (string t : {"% script", "a % -w script text", "script text executable for %,"}) { string a = fill(t, k); check({n, "x", {}, false}, a.c_str(), MEMORY); check({n, "x", {}, false}, a.c_str(), DISKPATH); } }
    }
  }
  // sniffer answers from words, switches and separators
  vector<string> at = {"ruby", "Perl", " ", "-w", "script", "text", "for ", "xml", ",", "script text", "-", "/", "C"};
  std::function<void(const string &, int)> rec = [&](const string &s, int d) { if (mine()) { check({"noext", "x", {}, false}, s.c_str(), MEMORY); check({"x.in", "x", {}, false}, s.c_str(), MEMORY); } if (d) for (auto &t : at) rec(s + t, d - 1); };
  rec("", th ? 7 : 5);
  // mode lines from words and separators
  vector<string> mt = {"-*-", " ", "mode", ":", ";", "Ruby", "c", "\t", "\n", "#!", "x", "-", "PY", "\r"};
  std::function<void(const string &, int)> rec3 = [&](const string &s, int d) { if (mine()) { check({"noext", s, {}, false}, "data", MEMORY); check({"Makefile", s + "-*-\n", {}, false}, "data", MEMORY); } if (d) for (auto &t : mt) rec3(s + t, d - 1); };
  rec3("", th ? 7 : 5); for (auto &t : mt) for (auto &u : mt) for (auto &v : mt) for (auto &w : mt) if (mine()) { check({"noext", "# -*-" + t + u + v + w + "-*-\n", {}, false}, "data", MEMORY); if (th) check({"noext", "#!a\n -*- " + t + u + v + w, {}, false}, "lua script", DISKPATH); }
  if (H::shard == 0) { H::sample("memory|Makefile|#!/bin/sh\\n# -*- Ruby -*-\\n|PHP script, ASCII text|"); H::stat("names") = names.size(); }
  cleanup(); return H::done();
}
