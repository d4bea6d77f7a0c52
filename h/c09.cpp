// C09: all short strings and all strings near a key, looked up in every name table, against the documented keys.
#include "h.h"
#include "tables.h"
#include <dlfcn.h>
#include <unordered_map>
extern "C" {
#include "sourcefile.h"
#include "detector.h"
#include "languages.h"
struct ExtensionMap { const char *key; const char *value; }; struct FilenameMap { const char *key; const char *value; };
struct DisambiguateFuncsMap_ { const char *key; void *value; }; struct CppHeaderMap { const char *key; int value; }; struct OhcountOption { const char *key; int value; };
struct ParserMap_ { const char *key; void *parser; };
struct ExtensionMap *ohcount_hash_language_from_ext(const char *, size_t);
struct FilenameMap *ohcount_hash_language_from_filename(const char *, size_t);
struct DisambiguateFuncsMap_ *ohcount_hash_disambiguate_func_from_id(const char *, size_t);
struct CppHeaderMap *ohcount_hash_is_cppheader(const char *, size_t);
struct ParserMap_ *ohcount_hash_parser_from_language(const char *, size_t);
struct OhcountOption *ohcount_hash_command_from_flag(const char *, size_t);
}
using std::string; using std::vector;
typedef std::unordered_map<string, string> Map;
struct Table { const char *name; Map keys; string (*look)(const string &); };
static string sym(void *p) { Dl_info i; return p && dladdr(p, &i) && i.dli_sname ? i.dli_sname : "?"; }
static string cv(const char *v) { return v[0] == '\2' ? string("?") + (v + 1) : v[0] == '\1' ? "!" : v; }
template <class R, class F> static string got(R *r, const string &s, F f) { return !r ? "" : !r->key ? "(entry without key)" : r->key != s ? string("(entry of ") + r->key + ")" : f(r); }
static string l_ext(const string &s) { return got(ohcount_hash_language_from_ext(s.c_str(), s.size()), s, [](auto r) { return cv(r->value); }); }
static string l_file(const string &s) { return got(ohcount_hash_language_from_filename(s.c_str(), s.size()), s, [](auto r) { return cv(r->value); }); }
static string l_rule(const string &s) { return got(ohcount_hash_disambiguate_func_from_id(s.c_str(), s.size()), s, [](auto r) { return sym(r->value); }); }
static string l_cpp(const string &s) { return got(ohcount_hash_is_cppheader(s.c_str(), s.size()), s, [](auto r) { return std::to_string(r->value); }); }
static string l_parser(const string &s) { return got(ohcount_hash_parser_from_language(s.c_str(), s.size()), s, [](auto r) { return sym(r->parser); }); }
static string l_opt(const string &s) { return got(ohcount_hash_command_from_flag(s.c_str(), s.size()), s, [](auto r) { return std::to_string(r->value); }); }
static string l_lang(const string &s) {
  auto r = ohcount_hash_language_from_name(s.c_str(), s.size()); if (!r) return "";
  if (s != r->key) return string("(entry of ") + r->key + ")";
  return string(r->name) + "|" + (r->nice_name ? r->nice_name : "(null)") + "|" + std::to_string(r->category);
}
static string l_set(const string &s) { // the language a file is told to have
  SourceFile *f = ohcount_sourcefile_new("x.c"); ohcount_sourcefile_set_language(f, s.c_str());
  string r = f->language_detected ? (f->language ? f->language : "(null)") : ""; ohcount_sourcefile_free(f); return r;
}
static string l_bin(const string &s) { return s.find('/') == string::npos && s.find('.') == string::npos ? (ohcount_is_binary_filename(("x." + s).c_str()) ? "!" : "") : ""; }
static vector<Table> T;
static void build() {
  auto add = [](const char *n, string (*l)(const string &)) { T.push_back({n, {}, l}); return &T.back().keys; };
  T.reserve(16); Map *m;
  m = add("extension", l_ext); for (auto &r : TB::EXT) (*m)[r[0]] = r[1];
  m = add("file", l_file); for (auto &r : TB::FILES) (*m)[r[0]] = r[1];
  m = add("rule", l_rule); for (auto &r : TB::RULES) (*m)[r[0]] = r[1];
  m = add("cppheader", l_cpp); for (auto &r : TB::CPPH) (*m)[r[0]] = r[1];
  m = add("parser", l_parser); for (auto &r : TB::PARSERS) (*m)[r[0]] = r[1];
  m = add("option", l_opt); for (auto &r : TB::OPTS) (*m)[r[0]] = r[1];
  m = add("language", l_lang); for (auto &r : TB::LANGS) (*m)[r[0]] = string(r[1]) + "|" + r[2] + "|" + r[3];
  m = add("set_language", l_set); for (auto &r : TB::LANGS) (*m)[r[0]] = r[1];
  m = add("binary", l_bin); for (auto &r : TB::EXT) if (r[1][0] == '!') (*m)[r[0]] = "!";
}
static long lookups = 0;
static const string none;
static void probe(const Table &t, const string &s) {
  lookups++; if (!(lookups & 0xfffff)) H::progress++;
  string k = s;
  if (!strcmp(t.name, "binary")) { // an extension counts as written, then in lower case
    if (!t.keys.count(s)) { bool known = T[0].keys.count(s); if (!known) for (char &c : k) c = tolower(c); }
  }
  auto i = t.keys.find(k); const string &want = i == t.keys.end() ? none : i->second;
  string g = t.look(s);
  if (g != want) H::viol(t.name, string(t.name) + "|" + H::esc(s), "lookup gives '" + g + "' instead of '" + want + "'");
}
static long n_ = 0; static bool mine() { return n_++ % H::nshards == H::shard; }
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard(60); H::set_case("|"); build();
  if (H::replaying) { size_t k = H::replay_case.find('|'); for (auto &t : T) if (H::replay_case.substr(0, k) == t.name) probe(t, H::unesc(H::replay_case.substr(k + 1))); return H::done(); }
  bool th = argc > 3 && !strcmp(argv[3], "thorough");
  string A; for (int c = 'a'; c <= 'z'; c++) A += c; for (int c = 'A'; c <= 'Z'; c++) A += c; A += "0123456789+-._#* /";
  string AW = A; for (int c = 1; c < 256; c++) if (AW.find((char)c) == string::npos) AW += (char)c;
  // a lookup must not leave the string or the tables; the current one is reported if it does
  static string cur; 
  // all strings up to three (thorough: four) characters
  std::function<void(const Table &, string &, int)> rec = [&](const Table &t, string &s, int n) { probe(t, s); if (!n) return; for (char c : A) { s += c; rec(t, s, n - 1); s.pop_back(); } };
  for (auto &t : T) { bool slow = !strcmp(t.name, "set_language") || !strcmp(t.name, "binary"); string s; probe(t, ""); 
    for (char c : A) if (mine()) { H::set_case(string(t.name) + "|" + c); s = string(1, c); rec(t, s, (th ? 3 : 2) - (slow && th)); } 
    for (unsigned char c : AW) for (unsigned char d : AW) if (mine()) probe(t, string{(char)c, (char)d}); }
  // every key of every table and all its neighbours, looked up in every table
  std::set<string> keys; for (auto &t : T) for (auto &k : t.keys) keys.insert(k.first);
  auto near = [&](const string &k, const string &al, auto f) {
    f(k);
    for (size_t i = 0; i <= k.size(); i++) { for (char c : al) { f(k.substr(0, i) + c + k.substr(i)); if (i < k.size()) f(k.substr(0, i) + c + k.substr(i + 1)); } if (i < k.size()) { f(k.substr(0, i) + k.substr(i + 1)); f(k.substr(0, i)); f(k.substr(i)); } if (i + 1 < k.size()) { string s = k; std::swap(s[i], s[i + 1]); f(s); } }
    f(k + k); string u = k, l = k; for (char &c : u) c = toupper(c); for (char &c : l) c = tolower(c); f(u); f(l); f(string(1000, 'a') + k); f(k + string(1000, 'a'));
    if (k.size() <= 12) for (int m = 0; m < (1 << k.size()); m++) { string s = k; for (size_t i = 0; i < k.size(); i++) if (m >> i & 1) s[i] = isupper(s[i]) ? tolower(s[i]) : toupper(s[i]); f(s); }
  };
  for (auto &k : keys) { if (!mine()) continue; H::set_case("near|" + k); near(k, AW, [&](const string &s) { for (auto &t : T) probe(t, s); });
    for (auto &t : T) if (t.keys.count(k) && strcmp(t.name, "set_language")) near(k, th ? A : string("aeoA1._-"), [&](const string &s) { near(s.substr(0, 40), th ? string("abcdefghijklmnopqrstuvwxyzAMZ019+-._") : string("asxA0_+"), [&](const string &z) { probe(t, z); }); }); }
  // every language a key can select is complete
  if (H::shard == 0) {
    std::set<string> langs; for (auto &r : TB::LANGS) langs.insert(r[1]);
    auto complete = [&](const string &from, const string &l) {
      if (l == "!") return;
      if (l[0] == '?') { if (l_rule(l.substr(1)).empty()) H::viol("complete", from, "rule " + l + " has no function"); return; }
      H::stat("selectable")++;
      if (l_lang(l).empty() || l_parser(l).empty()) H::viol("complete", "language|" + l, from + " selects a language without name or parser: " + l);
    };
    std::map<string, string> owner;
    for (auto &r : TB::EXT) complete(r[0], l_ext(r[0]).empty() ? "" : l_ext(r[0])); for (auto &r : TB::FILES) complete(r[0], l_file(r[0]));
    for (auto &l : langs) { complete("language table", l); string p = l_parser(l); if (owner.count(p)) H::viol("complete", "parser|" + l, "shares the parser " + p + " with " + owner[p]); owner[p] = l; }
    string all; for (auto &k : keys) all += k.size(); H::stat("keys") = 0; for (auto &t : T) H::stat("keys") += t.keys.size();
    H::sample("extension|c++ -> " + l_ext("c++")); H::sample("language|Python -> '" + l_lang("Python") + "'");
  }
  H::stat("lookups") = lookups;
  return H::done();
}
