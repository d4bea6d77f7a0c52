// The program's reports, judged against known lines of known files (C13, C15).
#pragma once
#include "h.h"
#include <math.h>
extern "C" {
#include "sourcefile.h"
#include "parser.h"
int oh_main(int, char **);
}
using std::string; using std::vector;
struct Line { string lang, kind, text; };
struct PF { string name, content, lang; vector<Line> lines; vector<string> lic; };
static vector<PF> pool;
static string rep(const string &s, int n) { string r; while (n--) r += s; return r; }
static void pf(const string &n, const string &lang, const vector<Line> &lines, const vector<string> &lic = {}) { PF p{n, "", lang, lines, lic}; for (auto &l : lines) p.content += l.text; pool.push_back(p); }
static string dir;
static void put(const string &p, const string &t) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); exit(4); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
static string run(const vector<string> &args, int &rc) {
  vector<string> a = args; a.insert(a.begin(), "ohcount"); vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(0);
  static char *buf; static size_t n; fflush(stdout); FILE *save = stdout; stdout = open_memstream(&buf, &n);
  rc = oh_main(a.size(), v.data());
  fclose(stdout); stdout = save; string r(buf, n); free(buf); return r;
}
// What the reports have to say about these files, in this order
typedef vector<std::pair<string, const PF *>> Files; // path as reported, file
struct Num { long code = 0, com = 0, blank = 0, files = 0; void add(const string &k, int by = 1) { (k == "code" ? code : k == "comment" ? com : blank) += by; } };
static vector<string> split(const string &s) { vector<string> r; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); r.push_back(s.substr(i, e - i)); i = e + 1; } return r; }
static vector<string> words(const string &s) { vector<string> r; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') i++; size_t e = i; while (e < s.size() && s[e] != ' ') e++; if (e > i) r.push_back(s.substr(i, e - i)); i = e; } return r; }
static bool num(const string &s, long &v) { if (s.empty() || s.size() > 12) return false; for (char c : s) if (!isdigit(c)) return false; v = atol(s.c_str()); return true; }
// [code, comment, percentage, blank, total] in words from i on; "" when right
static string numbers(const vector<string> &w, size_t &i, const Num &n) {
  long v; auto next = [&]() -> string { return i < w.size() ? w[i++] : ""; };
  if (!num(next(), v) || v != n.code) return "code is not " + std::to_string(n.code);
  if (!num(next(), v) || v != n.com) return "comments are not " + std::to_string(n.com);
  if (i < w.size() && w[i].back() == '%') { double p = atof(w[i++].c_str()), want = n.code + n.com ? 100.0 * n.com / (n.code + n.com) : 0; if (fabs(p - want) > 0.0501) return "the percentage is not " + std::to_string(want); }
  else if (n.code + n.com) return "no percentage";
  if (!num(next(), v) || v != n.blank) return "blanks are not " + std::to_string(n.blank);
  if (!num(next(), v) || v != n.code + n.com + n.blank) return "the total is not " + std::to_string(n.code + n.com + n.blank);
  return "";
}
static void cb(const char *l, const char *e, int s, int t, void *u) { char b[400]; snprintf(b, 400, "%s\t%s\t%d\t%d\n", l, e, s, t); *(string *)u += b; }
static std::map<const PF *, string> ent_memo;
static string judge(char cmd, const string &out, const Files &fs) {
  if (cmd == 'h') { return out.find("Usage: ohcount") == 0 && out.find("--summary") != string::npos && out.find("\t") == string::npos ? "" : "no help"; }
  if (cmd == 'd') { string w; for (auto &f : fs) if (!f.second->lang.empty()) w += f.second->lang + "\t" + f.first + "\n"; return out == w ? "" : "not " + H::esc(w); }
  if (cmd == 'a') { string w, w2; for (auto &f : fs) for (auto &l : f.second->lines) { string t = l.text + (l.text.back() == '\n' ? "" : "\n"); w += l.lang + "\t" + l.kind + "\t" + t; w2 += l.lang + "\tl" + l.kind + "\t" + t; } return out == w || out == w2 ? "" : "not " + H::esc(w2); }
  if (cmd == 'r') { string w; for (auto &f : fs) { auto &memo = ent_memo; auto i = memo.find(f.second); if (i == memo.end()) { string e; if (!f.second->lang.empty()) { SourceFile *s = ohcount_sourcefile_new(f.first.c_str()); ohcount_sourcefile_parse_entities_with_callback(s, cb, &e); ohcount_sourcefile_free(s); } i = memo.insert({f.second, e}).first; } w += i->second; } return out == w ? "" : "not " + H::esc(w); }
  if (cmd == 'l') { // licences of each file in order, one or several on a line
    vector<string> got, w; for (auto &l : split(out)) { size_t k = string::npos; string name; for (auto &f : fs) { string &n = name = f.first.substr(f.first.rfind('/') == string::npos ? 0 : f.first.rfind('/') + 1); for (auto &c : {f.first, n}) if (l.size() > c.size() + 1 && l.compare(l.size() - c.size(), string::npos, c) == 0 && l[l.size() - c.size() - 1] == ' ') { if (k == string::npos || l.size() - c.size() < k) { k = l.size() - c.size(); } } }
      if (k == string::npos) return "odd line " + H::esc(l); string file = l.substr(k); if (file.rfind('/') != string::npos) file = file.substr(file.rfind('/') + 1); string ls = l.substr(0, k); for (char &c : ls) if (c == ',') c = ' '; for (auto &x : words(ls)) got.push_back(x + " " + file); }
    for (auto &f : fs) for (auto &x : f.second->lic) w.push_back(x + " " + f.first.substr(f.first.rfind('/') == string::npos ? 0 : f.first.rfind('/') + 1));
    return got == w ? "" : "wrong licences"; }
  vector<string> ls = split(out); size_t k = 0; std::map<string, Num> sum;
  if (ls.empty() || ls[0] != "Examining " + std::to_string(fs.size()) + " file(s)") return "wrong number of files";
  while (k < ls.size() && ls[k].substr(0, 8) != "--------") k++; k++;
  if (k > ls.size()) return "no table";
  for (auto &f : fs) { std::map<string, Num> per; for (auto &l : f.second->lines) per[l.lang].add(l.kind);
    for (auto &p : per) { Num &s = sum[p.first]; s.code += p.second.code; s.com += p.second.com; s.blank += p.second.blank; s.files++;
      if (cmd == 'i') { if (k >= ls.size()) return "a row is missing"; const string &row = ls[k++]; if (row.size() < f.first.size() + 2 || row.compare(row.size() - f.first.size() - 2, string::npos, "  " + f.first) != 0) return "the row is not of file " + f.first + ": " + H::esc(row);
        vector<string> w = words(row.substr(0, row.size() - f.first.size())); size_t i = 1; if (w.empty() || w[0] != p.first) return "the row is not of language " + p.first + ": " + H::esc(row);
        string e = numbers(w, i, p.second); if (!e.empty()) return e + ": " + H::esc(row); if (i != w.size()) return "odd row " + H::esc(row); } } }
  if (cmd == 'i') return k == ls.size() ? "" : "odd row " + H::esc(ls[k]);
  long last = -1; std::set<string> seen; Num tot;
  for (; k < ls.size() && ls[k].substr(0, 8) != "--------"; k++) { vector<string> w = words(ls[k]); if (w.size() < 6) return "odd row " + H::esc(ls[k]); auto s = sum.find(w[0]); if (s == sum.end()) return "no lines of " + w[0]; if (!seen.insert(w[0]).second) return "two rows of " + w[0];
    long v; if (!num(w[1], v) || v != s->second.files) return "wrong number of files: " + H::esc(ls[k]); size_t i = 2; string e = numbers(w, i, s->second); if (!e.empty()) return e + ": " + H::esc(ls[k]); if (i != w.size()) return "odd row " + H::esc(ls[k]);
    if (last >= 0 && s->second.code > last) return "rows not in descending order of code: " + H::esc(ls[k]); last = s->second.code; tot.code += s->second.code; tot.com += s->second.com; tot.blank += s->second.blank; tot.files += v; }
  if (seen.size() != sum.size()) return "a row is missing";
  if (k + 2 != ls.size()) return "odd end";
  vector<string> w = words(ls[k + 1]); long v; if (w.size() < 6 || w[0] != "Total" || !num(w[1], v) || v != tot.files) return "wrong total row " + H::esc(ls[k + 1]); size_t i = 2; string e = numbers(w, i, tot); if (!e.empty() || i != w.size()) return e + " in total row " + H::esc(ls[k + 1]);
  return "";
}
