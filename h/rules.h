// Reference models of the content rules of ambiguous extensions, written from their documentation.
// "" stands for no language, "?" for cases the documentation leaves open.
#pragma once
#include "h.h"
namespace RU {
using std::string; using std::vector;
typedef vector<string> Names;
inline bool sp(char c) { return c == ' ' || c == '\t'; }
inline bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline bool dg(char c) { return c >= '0' && c <= '9'; }
inline bool lw(char c) { return c >= 'a' && c <= 'z'; }
inline bool an(char c) { return dg(c) || lw(c) || (c >= 'A' && c <= 'Z'); }
inline string low(string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline bool at(const string &s, size_t i, const string &m) { return i <= s.size() && s.compare(i, m.size(), m) == 0; }
inline char ch(const string &s, size_t i) { return i < s.size() ? s[i] : 0; }
inline bool has(const string &s, const string &m) { return s.find(m) != string::npos; }
// The lines of a text, ended by LF, CR or both; the line rules look at their first 80 characters.
inline vector<string> lines(const string &s, bool cut = true) {
  vector<string> r; size_t i = 0;
  while (i < s.size()) { size_t e = i; while (e < s.size() && s[e] != '\n' && s[e] != '\r') e++; string l = s.substr(i, e - i); if (cut && l.size() > 80) l.resize(80); r.push_back(l); while (e < s.size() && (s[e] == '\n' || s[e] == '\r')) e++; i = e; }
  return r;
}
inline string aspx(const string &s) {
  string l = low(s);
  for (size_t i = l.find("<%@"); i != string::npos; ) {
    size_t e = l.find("%>", i); if (e == string::npos) break;
    string d = l.substr(i + 3, e - i - 3); if (has(d, "<%@")) return "?"; size_t k = 0; while (k < d.size() && ws(d[k])) k++;
    if (at(d, k, "page") && has(d, "language=\"vb\"")) return "vb_aspx";
    i = l.find("<%@", i + 1);
  }
  return "cs_aspx";
}
inline string asx(const string &s) {
  for (char c : s) { if (sp(c) || c == '\n' || c == '\r') continue; return c == '<' || c == '\xef' || c == '\xfe' || c == '\xff' ? "" : "assembler"; }
  return "assembler";
}
inline string basic(const string &s, const Names &n) {
  for (auto &l : lines(s)) { size_t i = 0; while (dg(ch(l, i))) i++; if (!i) continue; size_t k = i; while (sp(ch(l, k))) k++; if (k > i && (an(ch(l, k)))) return "classic_basic"; }
  for (auto &f : n) { size_t d = f.rfind('.'); string e = d == string::npos ? f : f.substr(d + 1); for (auto x : {"frm", "frx", "vba", "vbp", "vbs"}) if (e == x) return "visualbasic"; }
  return "structured_basic";
}
inline string b(const string &s, const Names &n) {
  bool open = false;
  for (size_t i = 0; i < s.size(); i++) {
    if (at(s, i, "implement") && sp(ch(s, i + 9))) return "limbo";
    if (at(s, i, "include") && sp(ch(s, i + 7))) {
      size_t k = i + 7; while (sp(ch(s, k))) k++;
      if (ch(s, k) == '"') { size_t e = s.find('"', k + 1); if (e == string::npos) return "?"; if (ch(s, e + 1) == ';') return "limbo"; }
    }
    for (auto w : {"return", "break", "continue"}) if (at(s, i, w)) { size_t e = s.find(';', i), nl = s.find_first_of("\r\n", i); if (e != string::npos) { if (e < nl) return "limbo"; open = true; } }
    for (auto w : {"pick", "case"}) if (at(s, i, w)) { size_t e = s.find('{', i), nl = s.find_first_of("\r\n", i); if (e != string::npos) { if (e < nl) return "limbo"; open = true; } }
  }
  if (open) return "?"; // the end of the statement is on a later line
  return basic(s, n);
}
inline string cs(const string &s) { return has(s, "<?cs") ? "clearsilver_template" : "csharp"; }
inline size_t blank(const string &s) { size_t i = 0; while (i < s.size() && (sp(s[i]) || s[i] == '\n' || s[i] == '\r')) i++; return i; }
inline string dat(const string &s) { size_t i = blank(s); for (auto m : {"/*", "#", "data", "param", "set"}) if (at(s, i, m)) return "ampl"; return ""; }
inline string def(const string &s) { size_t i = blank(s); return at(s, i, "(*") || at(s, i, "DEFINITION") ? "modula2" : ""; }
inline string mod(const string &s) {
  size_t i = blank(s); if (i == s.size()) return "";
  if (at(s, i, "(*") || at(s, i, "IMPLEMENTATION") || at(s, i, "MODULE")) return "modula2";
  return s[i] == '(' || s[i] == 'I' || s[i] == 'M' ? "" : "ampl";
}
inline string fs(const string &s) {
  int forth = 0, sharp = 0;
  for (auto &l : lines(s, false)) {
    size_t i = 0; while (sp(ch(l, i))) i++;
    if (at(l, i, "\\ ") || at(l, i, ": ")) forth++; else for (auto m : {"|", "let ", "type ", "//"}) if (at(l, i, m)) { sharp++; break; }
  }
  return forth > sharp ? "forth" : forth < sharp ? "fsharp" : "";
}
inline string fortran(const string &s) {
  for (auto &l : lines(s, false)) {
    if (l.empty()) continue;
    char c = l[0];
    if (!sp(c) && !dg(c)) { if (c != 'C' && c != 'c' && c != '*' && c != '!') return "fortranfree"; continue; }
    int col = c == '\t' ? 5 : 1; bool label = dg(c); char quote = 0;
    for (size_t i = 1; i < l.size(); i++) {
      c = l[i]; col++;
      if (quote) { if (c == quote) quote = 0; continue; }
      if (col <= 5) { if (c == '!') break; if (!dg(c) && c != ' ') return "fortranfree"; if (dg(c)) label = true; continue; }
      if (col == 6) { if (label && c != ' ' && c != '0') return "fortranfree"; if (c == '"' || c == '\'') return "?"; continue; }
      if (c == '!') break;
      if (c == '"' || c == '\'') { quote = c; continue; }
      if (c == '&' && col <= 72) return "fortranfree";
    }
  }
  return "fortranfixed";
}
inline const std::set<string> *cppheaders = nullptr, *cppexts = nullptr;
inline string h(const string &s, const Names &n, const string &filename) {
  if (filename.size() >= 2 && filename.substr(filename.size() - 2) == ".h") for (auto &f : n) if (f == filename.substr(0, filename.size() - 1) + "m") return "objective_c";
  for (auto &full : lines(s, false)) {
    string l = full.substr(0, 80);
    if (full.size() > 80 && an(full[79]) && (an(full[80]) || full[80] == '_')) return "?"; // a word across the limit
    if (ch(l, 0) == '#') {
      size_t i = 1; while (sp(ch(l, i))) i++;
      if (at(l, i, "include") && sp(ch(l, i + 7))) {
        i += 7; while (sp(ch(l, i))) i++;
        if (ch(l, i) == '<' || ch(l, i) == '"') {
          size_t e = l.find_first_of(">\"", i + 1); if (e == string::npos) return "?";
          string f = l.substr(i + 1, e - i - 1); if (cppheaders->count(f)) return "cpp";
          size_t d = f.rfind('.'); if (d != string::npos && cppexts->count(f.substr(d + 1))) return "cpp";
        }
      }
    }
    for (size_t i = 0; i < l.size(); i++) if (lw(l[i]) && (i == 0 || (!an(l[i - 1]) && l[i - 1] != '_'))) {
      size_t e = i; while (lw(ch(l, e))) e++;
      if (an(ch(l, e)) || ch(l, e) == '_') continue;
      string w = l.substr(i, e - i); if (w == "class" || w == "namespace" || w == "template" || w == "typename") return "cpp";
    }
  }
  return "c";
}
inline string inc(const string &s) { return has(s, "?php") ? "php" : ""; }
inline string m(const string &s, const Names &n) {
  int math = 0, mat = 0, objc = 0, limbo = 0; bool octave = false, hh = false, cc = false;
  auto ends = [](const string &f, const string &e) { return f.size() >= e.size() && f.substr(f.size() - e.size()) == e; };
  for (auto &f : n) { if (ends(f, ".h")) hh = true; for (auto e : {".c", ".C", ".cc", ".cpp", ".c++", ".cxx"}) if (ends(f, e)) cc = true; }
  if (hh && !cc) objc += 5;
  for (auto &l : lines(s)) {
    size_t i = 0; while (sp(ch(l, i))) i++;
    if (ch(l, i) == '%') mat++;
    else if (at(l, i, "#import")) objc++;
    else if (ch(l, i) == '#') { while (ch(l, i) == '#') i++; if (sp(ch(l, i))) { limbo++; mat++; octave = true; } }
    else if (at(l, i, "//") || at(l, i, "/*")) objc++;
    else if (ch(l, i) == '+' || ch(l, i) == '-') objc++;
    else if (at(l, i, "@implementation") || at(l, i, "@interface")) objc++;
    else if (at(l, i, "function")) { i += 8; while (sp(ch(l, i))) i++; if (ch(l, i) == '(') mat++; }
    else if (at(l, i, "include") && sp(ch(l, i + 7))) { i += 7; while (sp(ch(l, i))) i++; if (ch(l, i) == '"') { size_t e = l.find('"', i + 1); if (e != string::npos && e > i + 2 && l[e - 1] == 'm' && l[e - 2] == '.') limbo++; } }
    // Octave keywords
    for (size_t k = 0; k < l.size(); k++) if (lw(l[k]) && (k == 0 || !an(l[k - 1]))) {
      size_t e = k; while (lw(ch(l, e)) || ch(l, e) == '_') e++;
      string w = l.substr(k, e - k); if (!an(ch(l, e)) && (w == "end_try_catch" || w == "end_unwind_protect" || w == "endfunction" || w == "endwhile")) { if (k && l[k - 1] == '_') return "?"; octave = true; }
      k = e - 1;
    }
    // Limbo declarations: /:[ \t]+(module|adt|fn ?\(|con[ \t])/ with one blank
    for (size_t k = 0; k < l.size(); k++) if (l[k] == ':' && sp(ch(l, k + 1))) {
      size_t p = k + 2;
      if ((at(l, p, "module") && !an(ch(l, p + 6))) || (at(l, p, "adt") && !an(ch(l, p + 3))) || at(l, p, "fn(") || at(l, p, "fn (") || (at(l, p, "con") && sp(ch(l, p + 3)))) limbo++;
    }
    // Mathematica
    for (size_t k = 0; k < l.size(); k++) {
      if (l[k] == '&') { size_t e = k + 1; while (sp(ch(l, e))) e++; if (ch(l, e) == ',' || ch(l, e) == ')' || ch(l, e) == ']') math++; }
      if (at(l, k, "(*") || at(l, k, "/.") || at(l, k, "__") || at(l, k, "@@")) math++;
    }
  }
  if (limbo > objc && limbo > mat && limbo > math) return "limbo";
  if (objc > mat && objc > math) return "objective_c";
  if (math > mat) return "mathematica";
  return octave ? "octave" : "matlab";
}
inline bool wc(char c) { return an(c) || c == '_'; }
inline string pp(const string &all) {
  string s = all.substr(0, 10000);
  auto cls = [&](size_t i, const char *extra) { size_t k = i; while (wc(ch(s, k)) || (ch(s, k) && strchr(extra, ch(s, k)))) k++; return k; };
  auto wss = [&](size_t i) { while (i < s.size() && ws(s[i])) i++; return i; };
  for (size_t b = 0; b < s.size(); b++) {
    if (b && s[b - 1] != '\n') continue;
    size_t i = wss(b);
    for (auto w : {"ensure", "content", "notify", "require", "source"}) if (at(s, i, w)) { size_t k = i + strlen(w), e = wss(k); if (e > k && at(s, e, "=>")) return "puppet"; }
    if (at(s, i, "define") && ws(ch(s, i + 6))) { size_t a = wss(i + 6), e = cls(a, ":-"); if (e > a && ch(s, wss(e)) == '(') return "puppet"; }
    if (at(s, i, "class") && ws(ch(s, i + 5))) {
      size_t a = wss(i + 5), e = cls(a, ":-");
      if (e > a) { size_t k = wss(e); if (ch(s, k) == '(' || ch(s, k) == '{') return "puppet";
        if (k > e && at(s, k, "inherits") && ws(ch(s, k + 8))) { size_t a2 = wss(k + 8), e2 = cls(a2, ":-"); if (e2 > a2) { size_t z = wss(e2); if (ch(s, z) == '(' || ch(s, z) == '{') return "puppet"; } } }
    }
    if (at(s, i, "node") && ws(ch(s, i + 4))) { size_t a = wss(i + 4); if (ch(s, a) == '\'') a++; size_t e = cls(a, ":.-"); if (e > a) { size_t k = e; if (ch(s, k) == '\'') k++; if (ch(s, wss(k)) == '{') return "puppet"; } }
    if (at(s, i, "import") && ws(ch(s, i + 6)) && ch(s, wss(i + 6)) == '"') return "puppet";
    if (at(s, i, "include") && ws(ch(s, i + 7))) { size_t a = wss(i + 7); if (ch(s, a) == '\'' || ch(s, a) == '"') a++; char c = ch(s, a); if (wc(c) || c == ':' || c == '-') return "puppet"; }
  }
  return "pascal";
}
inline string pl(const string &s) {
  string f = low(s.substr(0, 100)); f = f.substr(0, f.find('\n'));
  if (at(f, 0, "#!") && has(f, "perl")) return "perl";
  return has(s, ":- ") || has(s, ":-\n") ? "prolog" : "perl";
}
inline string pro(const string &s) { for (auto m : {"SOURCES +=", "SOURCES+=", "CONFIG +=", "CONFIG+="}) if (has(s, m)) return "make"; return "idl_pvwave"; }
inline string r(const string &s) { return has(low(s), "rebol") ? "rebol" : "r"; }
inline string rs(const string &s) { return at(low(s), 0, "#pragma version") || has(s, "\n#pragma version") ? "" : "rust"; }
inline string st(const string &s) {
  bool as = false, bs = false, be = false;
  for (auto &l : lines(s)) for (size_t k = 0; k < l.size(); k++) {
    if (l[k] == ':') { size_t e = k + 1; while (sp(ch(l, e))) e++; if (ch(l, e) == ':' || ch(l, e) == ']') return "?"; if (ch(l, e) == '=') as = true; if (ch(l, e) == '[') bs = true; }
    if (at(l, k, "].")) be = true;
  }
  return as && bs && be ? "smalltalk" : "";
}
// The rule `id` (an entry of the extension table) applied to a file.
inline string rule(const string &id, const string &s, const Names &n, const string &filename) {
  if (id == "aspx") return aspx(s); if (id == "asx") return asx(s); if (id == "b") return b(s, n); if (id == "basic") return basic(s, n); if (id == "cs") return cs(s);
  if (id == "dat") return dat(s); if (id == "def") return def(s); if (id == "fs") return fs(s); if (id == "fortran") return fortran(s); if (id == "h") return h(s, n, filename);
  if (id == "inc") return inc(s); if (id == "m") return m(s, n); if (id == "mod") return mod(s); if (id == "pp") return pp(s); if (id == "pl") return pl(s); if (id == "pro") return pro(s);
  if (id == "r") return r(s); if (id == "rs") return rs(s); if (id == "st") return st(s);
  return "?";
}
}
