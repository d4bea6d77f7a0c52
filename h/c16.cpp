// C16: licence wordings in every comment layout, alone, in pairs and triples, in one language and in several,
// outside comments and misspelt, against a table of what each wording states.
#include "h.h"
extern "C" {
#include "sourcefile.h"
#include "licenses.h"
}
using std::string; using std::vector; typedef std::set<string> S;
// fl: 1 = plain: no part or misspelling of it states another licence; 2 = fixed line breaks
struct W { string name; string text; int fl; vector<string> hidden; };
static const string B1 = "Copyright (c) 2006 Jakub Jermar\nAll rights reserved.\n\nRedistribution and use in source and binary forms, with or without\nmodification, are permitted provided that the following conditions\nare met:\n\n";
static const string BR = "Redistributions of source code must retain the above copyright\nnotice, this list of conditions and the following disclaimer.\n";
static const string BB = "Redistributions in binary form must reproduce the above copyright\nnotice, this list of conditions and the following disclaimer in the\ndocumentation and/or other materials provided with the distribution.\n";
static const string BN = "- The name of the author may not be used to endorse or promote products\nderived from this software without specific prior written permission.\n";
static const string BE = "\nTHIS SOFTWARE IS PROVIDED BY THE AUTHOR ``AS IS''. IN NO EVENT SHALL THE AUTHOR\nBE LIABLE FOR ANY DAMAGES HOWEVER CAUSED AND ON ANY\nTHEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT";
static const vector<W> WS = {
  {"academic", "Academic Free License", 1}, {"adaptive", "Adaptive Public License", 1}, {"affero", "GNU Affero General Public License", 1},
  {"apache", "Apache Software License", 1}, {"apache", "apache license", 1}, {"apache_2", "Apache License, Version 2.0", 0, {"apache"}}, {"apache_2", "apache software license 2", 0}, {"apache_2", "Apache License 2", 0},
  {"apple_open_source", "Apple Public Source License", 1}, {"artistic", "artistic license", 1}, {"attribution_assurance", "Attribution Assurance License", 1}, {"attribution_assurance", "attribution assurance licenses", 0},
  {"boost", "Boost Software License", 1}, {"bsd", "BSD license", 1}, {"bsd", "The Regents of the University of California", 1}, {"cecill", "CeCILL", 1}, {"cecill_b", "CeCILL-B", 0, {"cecill"}}, {"cecill_c", "CeCILL-C", 0, {"cecill"}},
  {"computer_associates_trusted", "Computer Associates Trusted Open Source License", 1}, {"common_development_and_distribution", "Common Development and Distribution License", 1},
  {"common_public", "Common Public License", 1}, {"cua_office", "CUA Office Public License", 1}, {"eu_datagrid", "EU DataGrid Software License", 1}, {"eclipse", "Eclipse Public License", 1},
  {"educational", "Educational Community License", 1}, {"eiffel", "Eiffel Forum License", 1}, {"eiffel_2", "Eiffel Forum License V2.0", 0}, {"entessa", "Entessa Public License", 1},
  {"fair", "Fair License", 1}, {"frameworx", "Frameworx License", 1},
  {"gpl3_or_later", "GNU General Public License Version 3 or later", 0, {"gpl", "gpl3"}}, {"gpl3_or_later", "GPL 3 or any later", 0, {"gpl"}},
  {"gpl3", "GNU General Public License Version 3", 0, {"gpl"}}, {"gpl3", "GNU GPL v3", 0, {"gpl"}}, {"gpl", "GNU General Public License at your option any later version 3", 0, {"gpl3"}},
  {"lgpl3", "LGPL 3", 0, {"lgpl"}}, {"lgpl3", "GNU Lesser General Public License version 3", 0, {"lgpl"}},
  {"gpl", "GPL", 1}, {"gpl", "GPLv2", 1}, {"gpl", "GNU General Public License", 1}, {"gpl", "www.gnu.org/licenses/gpl.txt", 0},
  {"lgpl", "LGPL", 1}, {"lgpl", "GNU Lesser General Public License", 1}, {"lgpl", "GNU Library General Public License", 1}, {"lgpl", "GNU lesser license", 1}, {"lgpl", "Lesser GPL", 0, {"gpl"}}, {"lgpl", "library gpl", 0, {"gpl"}},
  {"historical", "Historical Permission Notice and Disclaimer", 1}, {"i9_license", "i9 License", 1}, {"ibm_public", "IBM Public License", 1}, {"intel_open_source", "Intel Open Source License", 1},
  {"jabber_open_source", "Jabber Open Source License", 1}, {"lucent_plan9", "Lucent Public License (Plan9", 0}, {"lucent_public", "Lucent Public License Version 1", 0}, {"lucent_public", "Lucent Public License 1", 0},
  {"mit", "MIT License", 1}, {"mit", "MIT/X11 license", 0}, {"mit", "MIT/X11 licensed", 0}, {"mitre", "MITRE Collaborative Virtual Workspace License", 1}, {"motosoto", "Motosoto License", 1},
  {"mozilla_public_1", "Mozilla Public License", 1}, {"mozilla_public_1_1", "Mozilla Public License 1.1", 0, {"mozilla_public_1"}}, {"nasa_open", "NASA Open Source Agreement", 1}, {"naumen", "Naumen Public License", 1},
  {"nethack", "Nethack General Public License", 1}, {"nokia_open_source", "Nokia Open Source License", 1}, {"oclc_research", "OCLC Research Public License", 1}, {"open_group_test", "Open Group Test Suite License", 1},
  {"open_software", "Open Software License", 1}, {"php_license", "PHP License", 1}, {"python_license", "Python License", 1}, {"python_software_foundation", "Python Software Foundation License", 1},
  {"qt_public", "Qt Public License", 1}, {"realnetworks_public_source", "RealNetworks Public Source License", 1}, {"reciprocal_public", "Reciprocal Public License", 1}, {"ricoh_source", "Ricoh Source Code Public License", 1},
  {"sleepycat", "Sleepycat License", 1}, {"sugarcrm_1_1_3", "Sugar Public License Version 1.1.3", 0}, {"sun_industry_standards", "Sun Industry Standards Source License", 1}, {"sun_public", "Sun Public License", 1},
  {"sybase_open_watcom", "Sybase Open Watcom Public License", 1}, {"u_of_i_ncsa", "University of Illinois/NCSA Open Source License", 0}, {"vovida_software", "Vovida Software License", 1}, {"w3c", "W3C License", 1},
  {"wx_windows", "wxWindows Library License", 1}, {"x_net", "X.Net License", 0}, {"zope", "Zope Public License", 1}, {"zlib_libpng", "zlib/libpng License", 0}, {"apache_ish", "Apache-style license", 0}, {"apache_ish", "apache-like software license", 0},
  {"wtfpl_2", "WTFPL", 1}, {"wtfpl_2", "WTF Public License", 1}, {"wtfpl_2", "do what the fuck public license", 0}, {"wtfpl_2", "what the fuck public license", 0},
  {"bsd_ish", B1 + BR + BB + BN + BE, 2, {"bsd_2clause_ish"}}, {"bsd_2clause_ish", B1 + "1. " + BR + "2. " + BB + BE, 2},
};
static const std::pair<const char *, const char *> OVERRIDES[] = {{"gpl", "gpl3"}, {"gpl", "gpl3_or_later"}, {"gpl3", "gpl3_or_later"}, {"bsd_2clause_ish", "bsd_ish"}};
static S overridden(const S &s) { S r = s; for (auto &o : OVERRIDES) if (s.count(o.second)) r.erase(o.first); return r; }
struct Style { const char *name, *file, *pre, *line, *post; };
static const Style ST[] = {
  {"c", "a.c", "/*\n", " * ", " */\n"}, {"c-bare", "a.c", "/*\n", "", "*/\n"}, {"c-line", "a.c", "", "// ", ""}, {"c-deco", "a.c", "", "\t///*** -- ", ""}, {"c-box", "a.c", "/*********\n", "  *|:  ", " ********/\n"},
  {"sh", "a.sh", "", "# ", ""}, {"lisp", "a.lisp", "", "\t;;; ", ""}, {"sql", "a.sql", "", "-- ", ""}, {"html", "a.html", "<!--\n", "  ", "-->\n"}, {"py", "a.py", "'''\n", "", "'''\n"},
  {"tex", "a.tex", "", "%% ", ""}, {"lua", "a.lua", "--[[\n", "  - ", "]]\n"}, {"haskell", "a.hs", "{-\n", " -- ", "-}\n"}, {"ruby", "a.rb", "=begin\n", "* ", "=end\n"}, {"f", "a.f90", "", "!! ", ""}, {"css", "a.css", "/* \n", " ", " */\n"},
};
static string comment(const Style &s, const string &text, const string &nl = "\n") {
  string r = s.pre, cur;
  for (char c : text + "\n") if (c == '\n') { r += s.line + cur + "\n"; cur.clear(); } else cur += c;
  r += s.post;
  if (nl != "\n") { string q; for (char c : r) if (c == '\n') q += nl; else q += c; return q; }
  return r;
}
static void check(const string &kind, const string &file, const string &text, const S &want) {
  string cas = file + "|" + H::esc(text) + "|"; for (auto &w : want) cas += w + ",";
  H::set_case(cas); H::progress++; H::stat("files")++;
  SourceFile *f = ohcount_sourcefile_new(file.c_str()); ohcount_sourcefile_set_contents(f, text.c_str());
  S got; bool dup = false;
  for (auto i = ohcount_sourcefile_get_license_list(f)->head; i; i = i->next) if (!got.insert(i->lic->name).second) dup = true;
  H::stat("licences") += got.size();
  if (got != want || dup) { string g; for (auto &x : got) g += x + ","; H::viol(kind, cas, "licences are [" + g + "]" + (dup ? " with duplicates" : "")); }
  ohcount_sourcefile_free(f);
}
static string lower(string s) { for (char &c : s) c = tolower(c); return s; }
static string upper(string s) { for (char &c : s) c = toupper(c); return s; }
static long n_ = 0; static bool mine() { return n_++ % H::nshards == H::shard; }
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard(60);
  if (H::replaying) {
    auto &c = H::replay_case; size_t a = c.find('|'), b = c.rfind('|'); S w; string cur; for (char x : c.substr(b + 1)) if (x == ',') { w.insert(cur); cur.clear(); } else cur += x;
    check("replay", c.substr(0, a), H::unesc(c.substr(a + 1, b - a - 1)), w); return H::done();
  }
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  string filler; for (int i = 0; i < 40; i++) filler += "word "; filler = "\n" + filler + "\n\n";
  // one wording in each layout
  for (auto &w : WS) {
    vector<string> layouts{w.text}; 
    if (w.fl != 2) {
      layouts.push_back(lower(w.text)); layouts.push_back(upper(w.text)); layouts.push_back("Under the " + w.text + ". See there"); layouts.push_back("\n\n" + w.text + "\n\n");
      vector<size_t> sp; for (size_t i = 0; i < w.text.size(); i++) if (w.text[i] == ' ') sp.push_back(i);
      for (int m = 1; m < (1 << sp.size()); m++) { string t = w.text; for (size_t i = 0; i < sp.size(); i++) if (m >> i & 1) t[sp[i]] = '\n'; layouts.push_back(t); if (m < 8) layouts.push_back("the " + t + "\nfor it"); }
    }
    for (auto &s : ST) for (auto &l : layouts) {
      if (!mine()) continue;
      check("layout", s.file, comment(s, l), {w.name});
      if (w.fl != 2) check("layout", s.file, comment(s, l, "\r\n"), {w.name});
      check("layout", s.file, "x = 1\n" + comment(s, l) + "y = 2\n", {w.name});
    }
    // split over two comments, with code in between
    if (w.fl != 2 && mine()) { size_t k = w.text.find(' '); if (k != string::npos) for (auto &s : ST) { if (*s.post) continue; check("split", s.file, comment(s, w.text.substr(0, k)) + "x = 1\n" + comment(s, w.text.substr(k + 1)), {w.name}); } }
    // in the second or third of several comments, and after other text
    for (auto &s : ST) {
      if (w.fl == 2 && !*s.post) continue;
      if (!mine()) continue;
      string o = comment(s, "some words") + "x = 1\n", t = comment(s, w.text) + "x = 1\n";
      check("later", s.file, o + t, {w.name}); check("later", s.file, t + o, {w.name}); check("later", s.file, o + "\n" + o + t + o, {w.name}); check("later", s.file, t + comment(s, filler) + t, {w.name});
    }
    // outside comments
    if (w.fl != 2 && mine()) for (auto &p : vector<std::pair<string, string>>{{"a.c", "\""}, {"a.rb", "'"}, {"a.html", ""}, {"a.py", "\""}, {"a.js", "'"}, {"a.jpg", ""}, {"a.sql", "'"}})
      { check("code", p.first, "x = " + p.second + w.text + p.second + "\n", {}); check("code", p.first, p.second + w.text + p.second + "\n", {}); }
    // misspelt: any letter replaced
    if (w.fl == 1 && mine()) for (size_t i = 0; i < w.text.size(); i++) { if (!isalpha(w.text[i])) continue; string t = w.text; t[i] = 'q'; S e; if (lower(t) == lower(w.text)) continue;
      check("misspelt", "a.c", comment(ST[0], t), e); }
    // part of a longer word
    if (w.fl == 1 && w.text.find("Regents") == string::npos && mine()) { check("word", "a.c", comment(ST[0], "x" + w.text), {}); if (w.name == "attribution_assurance" || w.name == "apache") continue; check("word", "a.c", comment(ST[0], w.text + "x"), {}); check("word", "a.c", comment(ST[2], w.text + "_"), {}); }
  }
  // ordered pairs in one comment
  // What a wording hides is judged where it appears first, so texts in which it also stands elsewhere are left open.
  auto open_ = [](vector<const W *> v) {
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) if (v[i] != v[j] && v[i]->text != v[j]->text) for (auto &h : v[i]->hidden) {
      if (h == v[j]->name && i < j) return true;
      if (std::find(v[j]->hidden.begin(), v[j]->hidden.end(), h) != v[j]->hidden.end()) return true;
      if (v[i]->name == v[j]->name) return true;
    }
    return false;
  };
  for (auto &a : WS) for (auto &b : WS) {
    bool unspec = (a.fl == 2 || b.fl == 2) && (a.name == "bsd" || b.name == "bsd");
    if (!mine()) continue;
    if (a.fl == 2 && b.fl == 2) { unspec = true; }
    S e = overridden({a.name, b.name}); unspec = unspec || open_({&a, &b});
    if (!unspec) { check("pair", "a.c", comment(ST[0], a.text + filler + b.text), e); check("pair", "a.c", comment(ST[2], a.text + filler) + "int a;\n" + comment(ST[0], b.text), e); }
    else H::stat("unspecified")++;
    // in two languages of one file
    e = overridden({a.name, b.name});
    check("languages", "a.html", "<!--\n" + a.text + "\n-->\n<p>\n<style type=\"text/css\">\n/*\n" + b.text + "\n*/\n</style>\n", e);
    check("languages", "a.php", "<?php\n// x\n/*\n" + a.text + "\n*/\n$a = 1; ?>\n<!--\n" + b.text + "\n-->\n", e);
  }
  // wordings far into a file: after and before many lines, in a line with much text, after much code, among bytes that are no letters
  string many; while (many.size() < (th ? 1500000 : 140000)) many += many.size() % 7 ? "some words that state nothing\n" : "\n";
  string wide; while (wide.size() < (th ? 1500000 : 140000)) wide += "words that state nothing ";
  string code; while (code.size() < (th ? 1500000 : 140000)) code += "x = x;\n";
  for (auto &w : WS) for (auto k : {0, 2, 5, 8, 13}) {
    if (!mine()) continue;
    auto &s = ST[k]; S e{w.name};
    check("far", s.file, comment(s, many + "\n" + w.text), e); check("far", s.file, comment(s, w.text + "\n\n" + many), e);
    check("far", s.file, code + comment(s, w.text) + code, e);
    if (*s.pre == 0) check("far", s.file, comment(s, many) + code + comment(s, w.text), e);
    if (w.fl == 2) continue;
    check("far", s.file, comment(s, wide + w.text + " " + wide), e);
    for (auto o : {"\xc3\xa9", "\xa9", "\xff", "\x01", "\x7f", "(", "<", "\"", "'"}) {
      check("bytes", s.file, comment(s, string(o) + " " + w.text + " " + o), e); check("bytes", s.file, comment(s, "by \xc3\xa9\xa9\xff\n" + string(" ") + w.text + " \x80\n\xfe"), e);
    }
  }
  // all of them, in both orders
  for (auto k : {0, 2, 5, 8, 13}) for (bool back : {false, true}) {
    if (!mine()) continue;
    string t; S e; vector<const W *> v; for (auto &w : WS) if (w.fl == 1) v.push_back(&w);
    if (back) std::reverse(v.begin(), v.end());
    for (auto w : v) { t += w->text + filler; e.insert(w->name); check("all", ST[k].file, comment(ST[k], t), e); }
  }
  // triples of the licences that interact, in one and in three languages
  vector<const W *> in; for (auto &w : WS) for (auto n : {"gpl", "gpl3", "gpl3_or_later", "lgpl", "lgpl3", "mit", "apache", "apache_2", "mozilla_public_1", "mozilla_public_1_1", "bsd", "cecill", "cecill_b", "eiffel", "eiffel_2", "zope", "academic"}) if (w.name == n && (th || in.empty() || in.back()->name != w.name)) in.push_back(&w);
  for (auto a : in) for (auto b : in) for (auto c : in) {
    if (!mine()) continue;
    if (open_({a, b, c})) H::stat("unspecified")++;
    else check("triple", "a.c", comment(ST[0], a->text + filler + b->text + filler + c->text), overridden({a->name, b->name, c->name}));
    check("languages", "a.php", "<!--\n" + a->text + "\n-->\n<?php\n// x\n/* \n" + b->text + "\n*/\n$a = 1; ?>\n<style type=\"text/css\">\n/*\n" + c->text + "\n*/\n</style>\n", overridden({a->name, b->name, c->name}));
  }
  if (H::shard == 0) { H::stat("wordings") = WS.size(); H::sample(H::esc(comment(ST[3], "GNU General\nPublic License"))); }
  return H::done();
}
