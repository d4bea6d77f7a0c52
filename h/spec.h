// Reference lexical rules per language, and a reference classifier that walks the text once.
// It is written from the languages' own rules (as far as the tool documents supporting them), independently of the
// scanners: it knows nothing of scanner states, tentative reports or line flags.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <cstring>
#include <cctype>
namespace SP {
enum Kind { BLANK = 0, COMMENT = 1, CODE = 2 };
enum RT { LINE, BLOCK, STRING, REGEX, OPER, PLAINCOMMENT, WSCHAR, CUSTOM };
enum { ANY = 0, COL0 = 1, NOCODE = 2, WORD = 4, CONT = 8, NEST = 16, BS = 32, ML = 64, CODEBLK = 128, NOCASE = 256, CHARLIT = 512, LA_NOTGT = 1024, LA_NOTBRACE = 2048, ISCOMMENT = 4096, DOLLARWS = 8192, CLOSECOL0 = 16384, CARETESC = 32768, HASCODE = 65536, GREEDYQ = 1 << 17, ANYESC = 1 << 18, QRUN = 1 << 19, NLBAD = 1 << 20, RUNBAD = 1 << 21 };
struct Rule { RT t; std::string open, close; int f; };
struct Spec { const char *lang; std::vector<Rule> rules; const char *extra; /* further characters for the alphabet */ };
static inline Rule L(const char *o, int f = 0) { return {LINE, o, "", f}; }
static inline Rule B(const char *o, const char *c, int f = 0) { return {BLOCK, o, c, f}; }
static inline Rule S(const char *q, int f = 0) { return {STRING, q, q, f}; }
static inline Rule SC(const char *o, const char *c, int f = 0) { return {STRING, o, c, f}; }
static inline Rule RX(int f = 0) { return {REGEX, "/", "/", f | BS}; }
static inline bool isnl(char c) { return c == '\n' || c == '\r' || c == '\f'; }
static inline bool isws(char c) { return c == ' ' || c == '\t' || c == '\v'; }
static inline int nllen(const char *s, int n, int i) { return s[i] == '\r' && i + 1 < n && s[i + 1] == '\n' ? 2 : 1; }

#define CLIKE L("//", CONT), B("/*", "*/")
#define JLIKE L("//"), B("/*", "*/")
#define QML S("'", BS | ML), S("\"", BS | ML)
#define Q1 S("'", BS), S("\"", BS)
#define DQ1 S("\"", BS)
static const std::vector<Spec> SPECS = {
  {"actionscript", {JLIKE, Q1, SC("<![CDATA[", "]]>", ML)}, ""},
  {"ada", {L("--"), S("\"")}, ""},
  {"ampl", {L("#"), B("/*", "*/")}, ""},
  {"assembler", {L("//"), L(";"), L("!"), B("/*", "*/"), DQ1}, ""},
  {"augeas", {B("(*", "*)", NEST), DQ1}, ""},
  {"autoconf", {L("dnl", WORD), SC("[", "]", ML | NEST)}, ""},
  {"automake", {L("#"), Q1}, ""},
  {"awk", {L("#"), DQ1, {STRING, "/", "/", BS}}, ""},
  {"bat", {L("rem", WORD | NOCASE), L("@rem", WORD | NOCASE), L("::")}, ":"},
  {"bfpp", {{OPER, "+-<>.,[]%!#^:;", "", 0}, L("="), SC("@include(", ")", ML), {PLAINCOMMENT, "", "", 0}}, ""},
  {"blitzmax", {L("'"), DQ1, {CUSTOM, "rem", "end rem", 0}}, ""},
  {"boo", {L("#"), L("//"), B("/*", "*/", NEST), B("\"\"\"", "\"\"\"", ISCOMMENT), S("'", BS | CHARLIT), S("\"", BS), RX()}, ""},
  {"brainfuck", {{OPER, "+-<>.,[]", "", 0}, {PLAINCOMMENT, "", "", 0}}, "#"},
  {"c", {CLIKE, QML}, ""}, {"cpp", {CLIKE, QML}, ""}, {"csharp", {CLIKE, QML}, ""}, {"vala", {CLIKE, QML}, ""},
  {"genie", {CLIKE, QML}, ""}, {"cuda", {CLIKE, QML}, ""}, {"ec", {CLIKE, QML}, ""}, {"glsl", {CLIKE, QML}, ""},
  {"golang", {CLIKE, QML}, ""}, {"groovy", {CLIKE, QML}, ""},
  {"chaiscript", {JLIKE, QML, RX()}, ""}, {"javascript", {JLIKE, QML, RX()}, ""}, {"qml", {JLIKE, QML, RX()}, ""},
  {"typescript", {JLIKE, QML, RX()}, ""},
  {"classic_basic", {{CUSTOM, "1 '", "", 0}, DQ1}, ""},
  {"clearsilver", {L("#"), DQ1}, ""},
  {"cmake", {L("#"), S("\"", BS | ML)}, ""},
  {"clojure", {L(";"), B("\"\"\"", "\"\"\"", ISCOMMENT), S("\"", BS | ML)}, ""}, {"emacslisp", {L(";"), B("\"\"\"", "\"\"\"", ISCOMMENT), S("\"", BS | ML)}, ""},
  {"lisp", {L(";"), B("\"\"\"", "\"\"\"", ISCOMMENT), S("\"", BS | ML)}, ""}, {"scheme", {L(";"), B("\"\"\"", "\"\"\"", ISCOMMENT), S("\"", BS | ML)}, ""},
  {"racket", {L(";"), B("\"\"\"", "\"\"\"", ISCOMMENT), S("\"", BS | ML)}, ""},
  {"coq", {B("(*", "*)", NEST), S("\"", ML)}, ""},
  {"crystal", {L("#"), B("=begin", "=end"), S("\"", BS | ML), S("`", BS | ML), {STRING, "/", "/", BS}}, ""},
  {"css", {B("/*", "*/"), QML}, ""},
  {"dmd", {CLIKE, B("/+", "+/", NEST), QML, S("`", BS | ML)}, ""},
  {"dart", {CLIKE}, "\""},
  {"dcl", {L("!"), DQ1, {WSCHAR, "$", "", 0}}, ""},
  {"dylan", {JLIKE, S("'", BS | CHARLIT), DQ1}, ""},
  {"ebuild", {L("#"), Q1}, ""},
  {"eiffel", {L("--"), S("\"")}, ""},
  {"elm", {L("--", LA_NOTGT), B("{-", "-}", NEST), S("'", BS | CHARLIT), S("\"", BS | ML)}, ">"},
  {"haskell", {L("--", LA_NOTGT), B("{-", "-}", NEST), S("'", BS | CHARLIT), S("\"", BS | ML)}, ">"},
  {"erlang", {L("%"), Q1}, ""},
  {"exheres", {L("#"), Q1}, ""},
  {"factor", {L("!"), S("\"", BS | ML)}, ""},
  {"forth", {L("\\"), B("(", ")"), S("\"")}, ""},
  {"fortranfixed", {L("C", COL0), L("*", COL0), S("'", GREEDYQ), S("\"", GREEDYQ)}, ""},
  {"fortranfree", {L("!"), S("'", ML), S("\"", ML)}, ""},
  {"fsharp", {L("//", CONT), B("(*", "*)"), QML}, ""},
  {"grace", {L("//"), S("\"", BS | ML)}, ""},
  {"haxe", {CLIKE, Q1}, ""},
  {"idl_pvwave", {L(";")}, "\""},
  {"jam", {L("#"), QML}, ""},
  {"java", {JLIKE, Q1}, ""},
  {"julia", {L("#"), B("#=", "=#"), B("'''", "'''", ISCOMMENT), B("\"\"\"", "\"\"\"", ISCOMMENT), Q1}, ""},
  {"kotlin", {L("//"), B("/*", "*/", NEST), DQ1, SC("\"\"\"", "\"\"\"", ML | QRUN)}, ""},
  {"limbo", {L("#"), Q1}, ""},
  {"livecode", {L("--"), L("#"), L("//"), B("/*", "*/"), DQ1}, ""},
  {"logtalk", {L("%"), B("/*", "*/"), Q1}, ""},
  {"lua", {L("--"), {CUSTOM, "[[", "]]", 0}, {CUSTOM, "[=[", "]=]", 0}, QML}, ""},
  {"make", {L("#"), Q1}, ""},
  {"mathematica", {B("(*", "*)", NEST), S("\"", CHARLIT)}, ""},
  {"matlab", {L("%", LA_NOTBRACE), L("...", LA_NOTBRACE), B("%{", "%}"), Q1}, ""},
  {"metafont", {L("%"), DQ1}, ""}, {"metapost", {L("%"), DQ1}, ""},
  {"modelica", {JLIKE, S("\"", BS | ML)}, ""},
  {"modula2", {B("(*", "*)", NEST), S("'"), S("\"")}, ""},
  {"modula3", {B("(*", "*)", NEST), QML}, ""},
  {"nsis", {L("#"), L(";"), B("/*", "*/"), S("`", BS), Q1}, ""},
  {"oberon", {B("(*", "*)", NEST), S("'"), S("\"")}, ""},
  {"objective_c", {CLIKE, Q1}, ""}, {"objective_j", {CLIKE, Q1}, ""},
  {"ocaml", {B("(*", "*)", NEST), DQ1}, ""},
  {"octave", {L("%", LA_NOTBRACE), L("...", LA_NOTBRACE), L("#"), B("%{", "%}"), Q1}, ""},
  {"pascal", {L("//"), B("(*", "*)"), B("{", "}"), S("'", BS | ML)}, ""},
  {"perl", {L("#"), {CUSTOM, "=pod", "=cut", 0}, QML, S("`", BS | ML), {STRING, "/", "/", BS}}, ""},
  {"pike", {JLIKE, Q1}, ""},
  {"postscript", {L("%"), SC("(", ")", GREEDYQ)}, ""},
  {"powershell", {L("#"), B("<#", "#>"), QML}, ""},
  {"prolog", {L("%"), B("/*", "*/"), Q1}, ""},
  {"puppet", {L("#"), B("/*", "*/"), S("'", BS | ML)}, ""},
  {"python", {L("#"), L("//"), B("/*", "*/"), B("'''", "'''", ISCOMMENT), B("\"\"\"", "\"\"\"", ISCOMMENT), Q1}, ""},
  {"r", {L("#"), Q1}, ""},
  {"rebol", {L(";"), {STRING, "\"", "\"", CARETESC}, SC("{", "}", ML | NEST | CARETESC)}, ""},
  {"rexx", {B("/*", "*/", NEST), Q1}, ""},
  {"ruby", {L("#"), B("=begin", "=end"), QML, S("`", BS | ML), {STRING, "/", "/", BS}}, ""},
  {"rust", {CLIKE, S("\"", BS | ML)}, ""},
  {"scala", {JLIKE, Q1}, ""},
  {"scilab", {L("//"), Q1}, ""},
  {"shell", {L("#"), QML}, ""},
  {"smalltalk", {B("\"", "\""), S("'")}, ""},
  {"sql", {L("--"), L("#"), L("//"), B("/*", "*/"), B("{", "}"), Q1}, ""},
  {"stratego", {CLIKE, S("\"", BS | ML), S("'", CHARLIT)}, ""},
  {"structured_basic", {L("'"), L("rem", WORD | NOCASE), DQ1}, ""},
  {"swift", {CLIKE}, "\""},
  {"tcl", {L("#", CONT), S("\"", BS | ML)}, ""},
  {"tex", {L("%")}, "\""}, {"tex_dtx", {L("%%")}, "%"},
  {"umple", {JLIKE, Q1}, ""},
  {"unrealscript", {JLIKE, QML}, ""},
  {"vhdl", {L("--"), S("'", CHARLIT), S("\"")}, ""},
  {"vim", {L("\"", NOCODE), S("'", BS), {STRING, "\"", "\"", BS | HASCODE}}, ""},
  {"visualbasic", {L("'"), L("rem", WORD | NOCASE), DQ1}, ""},
  {"xaml", {B("<!--", "-->"), S("'"), S("\""), SC("<![CDATA[", "]]>", ML)}, ""},
  {"xml", {B("<!--", "-->"), S("'"), S("\""), SC("<![CDATA[", "]]>", ML)}, ""},
  {"xmlschema", {B("<!--", "-->"), Q1, SC("<![CDATA[", "]]>", ML)}, ""},
  {"xslt", {B("<!--", "-->"), Q1, SC("<![CDATA[", "]]>", ML)}, ""},
};
// Result of the classification: kinds[i] for each physical line; false if the text is outside the specification
// (a comment or string that is not closed, or a construct the languages leave to context).
struct Out { int n; signed char k[128]; };
static inline bool at(const char *s, int n, int i, const std::string &d, bool nocase = false) {
  int m = d.size(); if (i + m > n) return false;
  for (int k = 0; k < m; k++) if (nocase ? tolower((unsigned char)s[i + k]) != d[k] : s[i + k] != d[k]) return false;
  return true;
}
// Span of the rule at i: 0 = does not match, -1 = unspecified. *kind receives what the span is.
static inline int span(const Rule &r, const char *s, int n, int i, bool linecode, Kind *kind) {
  switch (r.t) {
  case LINE: {
    if (!at(s, n, i, r.open, r.f & NOCASE)) return 0;
    if ((r.f & COL0) && i > 0 && !isnl(s[i - 1])) return 0;
    if ((r.f & NOCODE) && linecode) return 0;
    int e = i + r.open.size();
    if (r.f & WORD) { if (e < n && !isws(s[e]) && !isnl(s[e])) return -1; }
    if (r.f & LA_NOTGT) { if (e >= n) return -1; if (s[e] == '>') return 0; }
    if (r.f & LA_NOTBRACE) { if (e >= n) return -1; if (s[e] == '{') return 0; }
    *kind = COMMENT;
    while (e < n) {
      if (isnl(s[e])) { if ((r.f & CONT) && s[e - 1] == '\\') { e += nllen(s, n, e); if (e >= n) return e - i; continue; } break; }
      e++;
    }
    return e - i;
  }
  case BLOCK: {
    if (!at(s, n, i, r.open)) return 0;
    *kind = COMMENT;
    int e = i + r.open.size(), depth = 1;
    while (e < n) {
      if ((r.f & NEST) && at(s, n, e, r.open)) { depth++; e += r.open.size(); continue; }
      if (at(s, n, e, r.close)) { e += r.close.size(); if ((r.f & RUNBAD) && e < n && s[e] == r.close[0]) return -1; if (!--depth) return e - i; continue; }
      e++;
    }
    return -1;
  }
  case REGEX: case STRING: {
    if (!at(s, n, i, r.open)) return 0;
    if ((r.f & HASCODE) && !linecode) return 0;
    *kind = CODE;
    int e = i + r.open.size(), depth = 1;
    if (r.t == REGEX) {
      if (e >= n) return 0;
      if (s[e] == '/' || s[e] == '*') return 0;
      if (isnl(s[e]) || s[e] == '\\') return -1;
      e++;
    }
    if (r.f & CHARLIT) {
      if (e >= n || isnl(s[e])) return 0;
      if (s[e] == r.close[0]) return (r.f & BS) ? 0 : -1;
      if ((r.f & BS) && s[e] == '\\') { e++; if (e >= n || isnl(s[e])) return 0; }
      else if (s[e] == '\\') return -1;
      e++;
      if (e < n && s[e] == r.close[0]) return e + 1 - i;
      return 0;
    }
    if (r.f & GREEDYQ) { int last = -1; while (e < n && !isnl(s[e])) { if (at(s, n, e, r.close)) last = e; e++; } return last < 0 ? 0 : last + 1 - i; }
    while (e < n) {
      if ((r.f & CARETESC) && s[e] == '^') { e++; if (e < n && !isnl(s[e])) { e++; } continue; }
      if ((r.f & BS) && s[e] == '\\') {
        e++;
        if (e >= n) break;
        if (isnl(s[e])) { if (!(r.f & (ML | ANYESC))) return 0; e += nllen(s, n, e); }
        else e++;
        continue;
      }
      if ((r.f & NEST) && at(s, n, e, r.open)) { depth++; e += r.open.size(); continue; }
      if (at(s, n, e, r.close)) { e += r.close.size(); if ((r.f & RUNBAD) && e < n && s[e] == r.close[0]) return -1; if (r.f & QRUN) for (int q = 0; q < 2 && e < n && s[e] == r.close[0]; q++) e++; if (!--depth) return e - i; continue; }
      if (isnl(s[e]) && (r.f & NLBAD)) return -1;
      if (isnl(s[e]) && !(r.f & ML)) return 0;
      e++;
    }
    return (r.f & ML) ? -1 : 0;
  }
  default: return 0;
  }
}
static inline int custom(const Spec &sp, const Rule &r, const char *s, int n, int i, Kind *kind);
static inline bool classify(const Spec &sp, const char *s, int n, Out &o) {
  o.n = 0; int k = BLANK; bool line_open = false; bool plain_comment = false;
  auto mark = [&](char c, Kind kk) { if (!isws(c) && kk > k) k = kk; line_open = true; };
  auto endl = [&]() { o.k[o.n++] = k; k = BLANK; line_open = false; };
  int i = 0;
  while (i < n) {
    if (o.n > 120) return false;
    if (isnl(s[i])) { i += nllen(s, n, i); endl(); continue; }
    if (isws(s[i])) { i++; line_open = true; continue; }
    int best = 0; Kind bk = CODE;
    for (auto &r : sp.rules) {
      Kind kk = CODE; int l = 0;
      if (r.t == OPER) { if (strchr(r.open.c_str(), s[i])) { kk = CODE; l = 1; } }
      else if (r.t == PLAINCOMMENT) { kk = COMMENT; l = 1; if (best >= 1) l = 0; }
      else if (r.t == WSCHAR) { if (s[i] == r.open[0]) { kk = BLANK; l = 1; } }
      else if (r.t == CUSTOM) l = custom(sp, r, s, n, i, &kk);
      else l = span(r, s, n, i, k == CODE, &kk);
      if (l < 0) return false;
      if (l > best) { best = l; bk = kk; }
    }
    if (!best) best = 1, bk = CODE;
    int e = i + best;
    while (i < e) {
      if (isnl(s[i])) { i += nllen(s, n, i); endl(); }
      else { mark(s[i], bk); i++; }
    }
  }
  if (line_open && k != BLANK) endl();
  return true;
}
static inline int custom(const Spec &sp, const Rule &r, const char *s, int n, int i, Kind *kind) {
  auto word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
  if (!strcmp(sp.lang, "lua")) {
    // [[ ... ]] and [=[ ... ]=], with -- in front a comment
    int j = i; bool com = at(s, n, i, "--"); if (com) j += 2;
    if (!at(s, n, j, r.open)) return 0;
    *kind = com ? COMMENT : CODE;
    for (int e = j + r.open.size(); e < n; e++) if (at(s, n, e, r.close)) return e + r.close.size() - i;
    return -1;
  }
  if (!strcmp(sp.lang, "blitzmax")) {
    if (!at(s, n, i, "rem", true)) return 0;
    if ((i > 0 && word(s[i - 1])) || (i + 3 < n && word(s[i + 3]))) return -1;
    *kind = COMMENT;
    for (int e = i + 3; e < n; e++) {
      if (at(s, n, e, "endrem", true)) return e + 6 - i;
      if (at(s, n, e, "end rem", true)) return e + 7 - i;
    }
    return -1;
  }
  if (!strcmp(sp.lang, "classic_basic")) {
    int e = i; while (e < n && isdigit((unsigned char)s[e])) e++;
    if (e == i) return 0;
    if (i > 0 && word(s[i - 1])) return 0;
    int w = e; while (e < n && isws(s[e])) e++;
    if (w == e) return 0;
    if (!at(s, n, e, "'") && !at(s, n, e, "rem", true)) return 0;
    *kind = COMMENT; while (e < n && !isnl(s[e])) e++;
    return e - i;
  }
  if (!strcmp(sp.lang, "perl")) {
    // pod: from a line starting with = and a word to the line starting with =cut
    if (s[i] != '=' || !(i == 0 || isnl(s[i - 1]))) return 0;
    if (i + 1 >= n || isnl(s[i + 1])) return -1;
    *kind = COMMENT;
    int e = i; bool first = true;
    while (e < n) {
      if (!first && at(s, n, e, "=cut")) return e + 4 - i;
      first = false;
      while (e < n && !isnl(s[e])) e++;
      if (e < n) e += nllen(s, n, e);
    }
    return -1;
  }
  return 0;
}
static const Spec *spec_of(const char *lang) { for (auto &s : SPECS) if (!strcmp(s.lang, lang)) return &s; return nullptr; }
// The alphabets: whole delimiters with all line endings, and their single characters.
static inline std::vector<std::string> alphabet(const Spec &sp, bool chars) {
  std::set<std::string> d; bool esc = false;
  for (auto &r : sp.rules) {
    if (r.f & (BS | CONT | ANYESC)) esc = true;
    if (r.f & CARETESC) d.insert("^");
    if (r.t == OPER) { d.insert("+"); d.insert(chars ? "#" : "["); continue; }
    if (r.t == PLAINCOMMENT) continue;
    if (chars) { for (char c : r.open + r.close) if (!isalpha((unsigned char)c)) d.insert(std::string(1, c)); if (isalpha((unsigned char)r.open[0])) d.insert(r.open); if (r.close.size() && isalpha((unsigned char)r.close[0])) d.insert(r.close); if (r.f & COL0) d.insert(r.open); }
    else { d.insert(r.open); if (r.close.size()) d.insert(r.close); }
  }
  for (const char *e = sp.extra; *e; e++) d.insert(std::string(1, *e));
  std::vector<std::string> v(d.begin(), d.end());
  if (esc) { bool has = false; for (auto &x : v) if (x == "\\") has = true; if (!has) v.push_back("\\"); }
  v.push_back("a"); v.push_back(" "); v.push_back("\n");
  if (!strcmp(sp.lang, "perl")) { v.push_back("=cut"); v.push_back("="); }
  if (!strcmp(sp.lang, "classic_basic")) { v.push_back("1"); v.push_back("rem"); }
  return v;
}
}
