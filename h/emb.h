// Reference classifier for the formats that host other languages. Walks the text once, keeping for the current line
// its kind and the last embedded language entered on it.
#pragma once
#include "spec.h"
namespace EM {
using SP::Rule; using SP::Kind; using SP::BLANK; using SP::COMMENT; using SP::CODE; using SP::isnl; using SP::isws; using SP::at; using SP::nllen;
enum { HOSTED = 1 /* may also start inside host strings and comments */, SILENT_END = 2 /* the end delimiter does not count as code */,
       OWN_ENTRY = 4 /* a line with only the start delimiter belongs to the embedded language */, COMMENT_HIDES_END = 8, ONLY_LONG = 16, LINE_ONLY = 32 };
struct Sec { std::vector<std::string> entry, exit; const char *lang; std::vector<Rule> rules; int f; };
struct Emb { const char *lang, *host; bool emb, templ; std::vector<Rule> rules; std::vector<Sec> secs; };
struct Line { const char *lang; signed char k; };
struct Out { int n; Line l[128]; };
#define ELINE(x) {SP::LINE, x, "", 0}
#define EBLOCK {SP::BLOCK, "/*", "*/", 0}
#define ESTR(q, f) {SP::STRING, q, q, f}
#define E_CSS {{"<style type=\"text/css\">"}, {"</style>"}, "css", {EBLOCK, ESTR("'", SP::BS | SP::ML), ESTR("\"", SP::BS | SP::ML)}, 0}
#define E_JSR {ELINE("//"), EBLOCK, ESTR("'", SP::BS | SP::ML | SP::NLBAD), ESTR("\"", SP::BS | SP::ML | SP::NLBAD), {SP::REGEX, "/", "/", SP::BS}}
#define E_JS {{"<script type='text/javascript'>"}, {"</script>"}, "javascript", E_JSR, 0}
static const std::vector<Emb> EMBS = {
  {"html", "html", true, false, {{SP::BLOCK, "<!--", "-->", 0}, ESTR("'", SP::BS), ESTR("\"", SP::BS)}, {E_CSS, E_JS}},
  {"php", "html", true, true, {}, {E_CSS, E_JS, {{"<?php", "<?"}, {"?>"}, "php", {ELINE("//"), ELINE("#"), EBLOCK, ESTR("'", SP::BS | SP::ML), ESTR("\"", SP::BS | SP::ML)}, HOSTED | SILENT_END | OWN_ENTRY | ONLY_LONG}}},
  {"jsp", "html", true, true, {}, {E_CSS, E_JS, {{"<%"}, {"%>"}, "java", {ELINE("//"), EBLOCK, ESTR("'", SP::BS), ESTR("\"", SP::BS)}, HOSTED}}},
  {"rhtml", "html", true, true, {}, {E_CSS, E_JS, {{"<%"}, {"%>"}, "ruby", {ELINE("#"), ESTR("'", SP::BS | SP::ML), ESTR("\"", SP::BS | SP::ML), ESTR("`", SP::BS | SP::ML), ESTR("/", SP::BS)}, HOSTED}}},
  {"cs_aspx", "html", true, true, {}, {E_CSS, E_JS, {{"<%", "<script runat='server'>"}, {"%>", "</script>"}, "csharp", {{SP::LINE, "//", "", SP::CONT}, EBLOCK, ESTR("'", SP::BS | SP::ML | SP::NLBAD), ESTR("\"", SP::BS | SP::ML | SP::NLBAD)}, HOSTED}}},
  {"vb_aspx", "html", true, true, {}, {E_CSS, E_JS, {{"<%", "<script runat='server'>"}, {"%>", "</script>"}, "visualbasic", {ELINE("'"), ESTR("\"", SP::BS)}, HOSTED}}},
  {"clearsilver_template", "html", true, true, {}, {E_CSS, E_JS, {{"<?cs"}, {"?>"}, "clearsilver", {ELINE("#"), ESTR("\"", SP::BS)}, HOSTED | COMMENT_HIDES_END}}},
  {"mxml", "mxml", false, false, {{SP::BLOCK, "<!--", "-->", 0}, ESTR("'", SP::BS | SP::ML), ESTR("\"", SP::BS | SP::ML)},
    {{{"<mx:Style>"}, {"</mx:Style>"}, "css", {EBLOCK, ESTR("'", SP::BS | SP::ML), ESTR("\"", SP::BS | SP::ML)}, 0},
     {{"<mx:Script>"}, {"</mx:Script>"}, "actionscript", {ELINE("//"), EBLOCK, ESTR("'", SP::BS), ESTR("\"", SP::BS), {SP::STRING, "<![CDATA[", "]]>", SP::ML}}, 0}}},
  {"nix", "nix", false, false, {ELINE("#"), EBLOCK},
    {{{"\""}, {"\""}, "shell", {ELINE("#"), ESTR("'", SP::BS | SP::ML)}, 0}, {{"''"}, {"''"}, "shell", {ELINE("#"), ESTR("\"", SP::BS | SP::ML)}, 0}}},
  {"coffeescript", "coffeescript", false, false, {ELINE("#"), {SP::BLOCK, "###", "###", SP::RUNBAD}, {SP::STRING, "'''", "'''", SP::ML | SP::RUNBAD}, {SP::STRING, "\"\"\"", "\"\"\"", SP::ML | SP::RUNBAD}, ESTR("'", SP::BS | SP::ML), ESTR("\"", SP::BS | SP::ML)},
    {{{"`"}, {"`"}, "javascript", E_JSR, 0}}},
  {"metapost_with_tex", "metapost", false, false, {ELINE("%"), ESTR("\"", SP::BS)},
    {{{"verbatimtex", "btex"}, {"etex"}, "tex", {ELINE("%")}, 0}}},
  {"haml", "haml", true, false, {}, {}},
};
static inline bool lower_eq(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i])) return false; return true; }
// Length of the closing delimiter at i; 0: none, -1: unspecified (a line end inside the tag)
static inline int exit_at(const Sec &c, const char *s, int n, int i) {
  for (auto &x : c.exit) {
    int m = x.size();
    if (x[0] == '<' && x[1] == '/') {
      if (i + m - 1 > n || !lower_eq(s + i, x.data(), m - 1)) continue;
      int e = i + m - 1; bool nl = false;
      while (e < n && (isws(s[e]) || isnl(s[e]))) { nl |= isnl(s[e]); e++; }
      if (e < n && s[e] == '>') return nl ? -1 : e + 1 - i;
    } else if (at(s, n, i, x)) return m;
  }
  return 0;
}
// Length of the opening delimiter x at i; 0: none, -1: unspecified. <style ...> and <script ...> are tags whose type (or
// runat) attribute names the language; the attributes may stand in any order, on several lines, with either quotes.
static inline int entry_at(const std::string &x, const char *s, int n, int i) {
  if (x[0] != '<' || x.size() < 7 || x[1] != 's') return at(s, n, i, x) ? x.size() : 0;
  int m = x.find(' ');
  if (i + m > n || !lower_eq(s + i, x.data(), m)) return 0;
  std::string mark = x.find("text/css") != x.npos ? "text/css" : x.find("text/javascript") != x.npos ? "text/javascript" : "server", attr = mark == "server" ? "runat" : "type";
  int e = i + m; while (e < n && s[e] != '>') e++;
  if (e >= n) return -1;
  std::string in(s + i + m, s + e);
  if (in.find('<') != in.npos) return -1;
  if (in.find(mark) == in.npos) return 0;
  if (!isws(in[0]) && !isnl(in[0])) return -1;
  bool found = false; size_t p = 0;
  auto skip = [&]() { while (p < in.size() && (isws(in[p]) || isnl(in[p]))) p++; };
  for (;;) {
    size_t q = p; skip();
    if (p == in.size()) break;
    if (q == p) return -1; // no space between attributes
    size_t b = p; while (p < in.size() && isalpha((unsigned char)in[p])) p++;
    if (p == b) return -1;
    std::string name = in.substr(b, p - b); size_t r = p; skip();
    if (p < in.size() && in[p] == '=') {
      p++; skip();
      if (p >= in.size() || (in[p] != '"' && in[p] != '\'')) return -1;
      size_t c = in.find(in[p], p + 1); if (c == in.npos) return -1;
      std::string v = in.substr(p + 1, c - p - 1); p = c + 1;
      if (v == mark && name == attr) found = true; else if (v.find(mark) != v.npos) return -1;
      for (auto o : {"text/css", "text/javascript", "server"}) if (v != mark && v.find(o) != v.npos) return -1; // two answers
    } else p = r;
  }
  return found ? e + 1 - i : -1;
}
static inline bool rest_blank(const char *s, int n, int &i) { // moves past the line end
  int e = i; while (e < n && isws(s[e])) e++;
  if (e < n && !isnl(s[e])) return false;
  if (e < n) e += nllen(s, n, e);
  i = e; return true;
}
// false: outside the specification
static inline bool classify(const Emb &em, const char *s, int n, Out &o, const char **why = nullptr) {
  o.n = 0; int k = BLANK; const char *seen = nullptr; const Sec *in = nullptr; char mode = 0; // 0 host, 'c' host comment, '"' / '\'' host string
  bool open = false; int i = 0; bool child_nl_free = true;
  auto mark = [&](Kind kk) { if (kk > k) k = kk; open = true; };
  auto endl = [&](const char *lang) { o.l[o.n].lang = lang; o.l[o.n].k = k; o.n++; k = BLANK; open = false; };
  auto host_nl = [&]() { endl(em.emb && seen ? seen : em.host); seen = nullptr; };
  while (i < n) {
    if (o.n > 120) return false;
    if (in) {
      if (isnl(s[i])) { i += nllen(s, n, i); endl(in->lang); continue; }
      int x = exit_at(*in, s, n, i);
      if (x < 0) return false;
      int best = 0; Kind bk = CODE; const Rule *br = nullptr;
      for (auto &r : in->rules) {
        Kind kk = CODE; int l = SP::span(r, s, n, i, k == CODE, &kk);
        if (l < 0) return false;
        if (l > best) { best = l; bk = kk; br = &r; }
      }
      if (x && best > x) return false; // left to the languages: the delimiter also starts a construct
      if (x) {
        if (k == BLANK && !(in->f & SILENT_END)) seen = nullptr;
        const Sec *was = in; in = nullptr;
        if (was->f & SILENT_END) { if (mode == 'c') mark(COMMENT); else mark(CODE); } else mark(CODE);
        // the host must not read part of the delimiter as something of its own
        if (x > 1 && was->exit[0] == "''" && i + 2 < n && s[i + 2] == '\'') return false;
        i += x; continue;
      }
      if (isws(s[i]) && !best) { i++; open = true; continue; }
      if (!best) { mark(CODE); i++; continue; }
      if (br->t == SP::LINE && !(in->f & COMMENT_HIDES_END)) {
        for (int j = i + 1; j < i + best; j++) { int x2 = exit_at(*in, s, n, j); if (x2 < 0) return false; if (x2) { for (int q = i; q < i + best; q++) if (isnl(s[q])) return false; best = j - i; break; } }
      } else for (int j = i; j < i + best; j++) if (exit_at(*in, s, n, j)) { if (br->t == SP::LINE) continue; return false; }
      if ((in->f & COMMENT_HIDES_END) && br->t == SP::LINE)
        for (int j = i; j < i + best; j++) if (exit_at(*in, s, n, j)) { if (why) *why = "comment-hides-end"; }
      for (int e = i + best; i < e; ) { if (isnl(s[i])) { i += nllen(s, n, i); endl(in->lang); } else { if (!isws(s[i])) mark(bk); else open = true; i++; } }
      continue;
    }
    if (isnl(s[i])) { i += nllen(s, n, i); host_nl(); continue; }
    // an embedded section starts here?
    const Sec *ent = nullptr; int el = 0;
    for (auto &c : em.secs) {
      if (mode && !(c.f & HOSTED)) continue;
      for (auto &x : c.entry) {
        if (mode && (x[0] == '<' && x.size() > 6)) continue;  // tags do not start inside a host string or comment
        if (mode && (c.f & ONLY_LONG) && x == "<?") continue;
        int l = entry_at(x, s, n, i);
        if (l < 0) return false;
        if (l > el) { ent = &c; el = l; }
      }
    }
    int best = 0; Kind bk = CODE;
    if (!mode) for (auto &r : em.rules) {
      Kind kk = CODE; int l = SP::span(r, s, n, i, k == CODE, &kk);
      if (l < 0) return false;
      if (l > best) { best = l; bk = kk; }
    }
    if (ent && best > el) return false;
    if (ent) {
      Kind ek = mode == 'c' ? COMMENT : CODE;
      for (int j = i; seen && j < i + el; j++) if (isnl(s[j])) return false; // a tag of several lines after embedded text
      for (int e = i + el; i < e; ) { if (isnl(s[i])) { i += nllen(s, n, i); host_nl(); } else { if (!isws(s[i])) mark(ek); else open = true; i++; } }
      if (rest_blank(s, n, i)) { endl(ent->f & OWN_ENTRY ? ent->lang : em.host); }
      k = BLANK; seen = ent->lang; in = ent;
      if (ent->entry[0] == "''" && i < n && s[i] == '\'') return false;
      continue;
    }
    if (em.templ) {
      if (mode == 'c') { if (at(s, n, i, "-->")) { mark(COMMENT); mode = 0; i += 3; continue; } if (!isws(s[i])) mark(COMMENT); else open = true; i++; continue; }
      if (mode) {
        if (s[i] == mode) { mark(CODE); mode = 0; i++; continue; }
        if (s[i] == '\\' && i + 1 < n && !isnl(s[i + 1])) { mark(CODE); i += 2; continue; }
        if (!isws(s[i])) mark(CODE); else open = true; i++; continue;
      }
      if (at(s, n, i, "<!--")) { mark(COMMENT); mode = 'c'; i += 4; continue; }
      if (s[i] == '"' || s[i] == '\'') { mark(CODE); mode = s[i]; i++; continue; }
    }
    if (!best) { if (isws(s[i])) open = true; else mark(CODE); i++; continue; }
    for (int e = i + best; i < e; ) { if (isnl(s[i])) { i += nllen(s, n, i); host_nl(); } else { if (!isws(s[i])) mark(bk); else open = true; i++; } }
  }
  if (in && !em.emb && k != BLANK) return false; // an unclosed section's unfinished line
  if (open && k != BLANK) endl(em.emb && seen ? seen : em.host);
  return true;
}

// Haml: a line is text, a comment, or (after an optional tag) an evaluator with Ruby up to the end of the line.
static inline bool classify_haml(const char *s, int n, Out &o) {
  static const std::vector<Rule> ruby = {ELINE("#"), ESTR("'", SP::BS | SP::ML), ESTR("\"", SP::BS | SP::ML), ESTR("`", SP::BS | SP::ML), ESTR("/", SP::BS)};
  o.n = 0; int k = BLANK; bool in = false, rb = false; int i = 0;
  for (int j = 0; j < n; j++) if (strchr("{}[]|\t\v", s[j])) return false;
  auto endl = [&]() { o.l[o.n].lang = rb ? "ruby" : "haml"; o.l[o.n].k = k; o.n++; k = BLANK; rb = in = false; };
  while (i < n) {
    if (o.n > 120) return false;
    if (isnl(s[i])) { i += nllen(s, n, i); endl(); continue; }
    int eol = i; while (eol < n && !isnl(s[eol])) eol++;
    if (in) {
      int best = 0; Kind bk = CODE;
      for (auto &r : ruby) { Kind kk = CODE; int l = SP::span(r, s, n, i, k == CODE, &kk); if (l < 0) return false; if (l > best) { best = l; bk = kk; } }
      if (i + best > eol) return false;
      if (!best && isws(s[i])) { i++; continue; }
      if (!best) best = 1;
      if (bk > k) k = bk;
      i += best; continue;
    }
    int ind = i; while (ind + 1 < eol && s[ind] == ' ' && s[ind + 1] == ' ') ind += 2;
    int ent = 0, str = 0, com = 0, sp = 0;
    // the evaluator, after an optional tag
    for (int st = i; st <= ind; st += 2) for (int t = st; t < eol; t++) {
      if (t > st) { // s[st..t) is a tag
        if (s[st] != '%' || t < st + 2) continue;
        std::string name(s + st + 1, s + t);
        if (name.find(' ') != std::string::npos) break;
        if (name.size() > 2 && name.substr(name.size() - 2) == "//") name = name.substr(0, name.size() - 2);
        if (name == "==" || name == "=" || name == "&=" || name == "!=" || name == "-" || name == "~") continue;
      }
      for (auto ev : {"==", "=", "&=", "!=", "-", "~"}) { int m = strlen(ev); if (t + m < eol && !strncmp(s + t, ev, m) && s[t + m] == ' ') ent = std::max(ent, t + m + 1 - i); }
    }
    for (int st = i; st <= ind && st < eol; st += 2) if (!strchr("/=-~.#% ", s[st]) ) str = eol - i;
    if (s[i] != ' ') { if (s[i] == '/' || (s[i] == '-' && i + 1 < eol && s[i + 1] == '#')) com = eol - i; }
    else if (ind < eol && (s[ind] == '/' || (s[ind] == '-' && ind + 1 < eol && s[ind + 1] == '#'))) com = eol - i;
    while (i + sp < eol && s[i + sp] == ' ') sp++;
    if (com && com >= ent && com >= str) {
      // what follows must not be part of the comment
      if (eol < n) {
        int nx = eol + nllen(s, n, eol), in2 = nx; while (in2 < n && s[in2] == ' ') in2++;
        int in1 = i; while (in1 < n && s[in1] == ' ') in1++;
        int ls = i; while (ls > 0 && !isnl(s[ls - 1])) ls--;
        if (ls != i || in2 >= n || isnl(s[in2]) || in2 - nx > in1 - ls) { if (nx < n) return false; }
      }
      if (k < COMMENT) k = COMMENT;
      i = eol; continue;
    }
    if (ent && ent >= str && ent >= sp) {
      k = CODE; i += ent; in = true; int j = i; 
      while (j < eol && s[j] == ' ') j++;
      if (j < eol) { k = BLANK; rb = true; }
      continue;
    }
    if (sp && sp >= str) { i += sp; continue; }
    if (str) { // &= and != evaluators start like text
      if (ent) { int j = i + ent; while (j < eol && s[j] == ' ') j++; if (j < eol) rb = true; }
      k = CODE; i = eol; continue; }
    k = CODE; i++;
  }
  if (k != BLANK) endl();
  return true;
}
}
