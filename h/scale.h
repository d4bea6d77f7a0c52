// Texts far larger than any construct: a closed text repeated, and its letters and spaces drawn out, beyond 65536 bytes,
// lines and columns. "=r:K|LANG|TEXT" names TEXT repeated K times, "=w:K|..." TEXT with each 'a' and ' ' K times,
// "=p:K|..." TEXT after K lines "a".
#pragma once
#include "spec.h"
#include "emb.h"
namespace SC {
struct Kinds { std::vector<std::pair<const char *, int>> l; };
static inline bool kinds(const char *lang, const std::string &t, Kinds &k) {
  k.l.clear();
  if (auto sp = SP::spec_of(lang)) {
    SP::Out o; if (!SP::classify(*sp, t.data(), t.size(), o)) return false;
    for (int i = 0; i < o.n; i++) k.l.push_back({sp->lang, o.k[i]});
    return true;
  }
  for (auto &e : EM::EMBS) if (!strcmp(e.lang, lang)) {
    EM::Out o; const char *why = nullptr;
    if (!(e.secs.empty() ? EM::classify_haml(t.data(), t.size(), o) : EM::classify(e, t.data(), t.size(), o, &why)) || why) return false;
    for (int i = 0; i < o.n; i++) k.l.push_back({o.l[i].lang, o.l[i].k});
    return true;
  }
  return false;
}
static inline bool same(const Kinds &a, const Kinds &b, size_t times) {
  if (b.l.size() != a.l.size() * times) return false;
  for (size_t i = 0; i < b.l.size(); i++) if (strcmp(a.l[i % a.l.size()].first, b.l[i].first) || a.l[i % a.l.size()].second != b.l[i].second) return false;
  return true;
}
static inline std::string make(char mode, int K, const std::string &u) {
  std::string r;
  if (mode == 'r') { r.reserve(u.size() * K); for (int i = 0; i < K; i++) r += u; }
  else if (mode == 'p') { for (int i = 0; i < K; i++) r += "a\n"; r += u; }
  else for (char c : u) if (c == 'a' || c == ' ') r.append(K, c); else r += c;
  return r;
}
static inline size_t lines(char mode, int K, size_t n) { return mode == 'r' ? n * K : mode == 'p' ? n - 1 + K : n; }
static inline size_t index(char mode, int K, size_t n, size_t i) { return mode == 'r' ? i % n : mode == 'w' ? i : i < (size_t)K ? 0 : i - K + 1; } // for 'p' the unit has one of the lines before it
static inline bool unit_kinds(const char *lang, char mode, const std::string &u, Kinds &k) { return kinds(lang, mode == 'p' ? "a\n" + u : u, k); }
static inline std::string name(const char *lang, char mode, int K, const std::string &u) { return std::string("=") + mode + ":" + std::to_string(K) + "|" + lang + "|" + H::esc(u); }
// f(lang, mode, K, unit, text, kinds of the unit's lines) for every case of this shard
template <class F> static void all(const char *lang, const std::vector<std::string> &T, int depth, bool th, F f, bool open = false) {
  static long c = 0; const int size = th ? 1100000 : 140000;
  std::function<void(std::string, int)> rec = [&](std::string t, int d) {
    if (d) for (auto &x : T) rec(t + x, d - 1);
    if (t.empty() || c++ % H::nshards != H::shard) return;
    Kinds k, k2, k3, k0;
    bool pad = kinds(lang, "a\n", k0) && k0.l.size() == 1 && kinds(lang, "a\na\n", k2) && same(k0, k2, 2);
    bool cl = pad && kinds(lang, "a\n" + t, k) && kinds(lang, "a\na\na\n" + t, k2) && k2.l.size() == k.l.size() + 2 && std::equal(k.l.begin(), k.l.end(), k2.l.begin() + 2, [](auto &a, auto &b) { return a.second == b.second && !strcmp(a.first, b.first); });
    if (pad && (cl || open)) { int K = size / 4; H::stat("large_texts")++; f(lang, 'p', K, t, make('p', K, t), k); if (open) for (auto x : {"\n", "\na"}) f(lang, 'p', K, t + x, make('p', K, t + x), k); }
    std::string u = t.back() == '\n' ? t : t + "\n";
    if (!kinds(lang, u, k) || k.l.empty() || !kinds(lang, u + u, k2) || !same(k, k2, 2) || !kinds(lang, u + u + u, k3) || !same(k, k3, 3)) return;
    int K = size / u.size(); H::stat("large_texts")++;
    f(lang, 'r', K, u, make('r', K, u), k);
    if (t.find_first_of("a ") == t.npos) return;
    K = th ? 300000 : 70000; std::string w = make('w', K, u);
    if (strlen(lang) > 6 && !strncmp(lang, "fortran", 7)) return; // columns count
    if (!kinds(lang, make('w', 3, u), k2) || !same(k, k2, 1)) return;
    H::stat("large_texts")++; f(lang, 'w', K, u, w, k);
  };
  rec("", depth);
}
static inline bool parse_case(const std::string &c, std::string &lang, char &mode, int &K, std::string &u) {
  if (c[0] != '=') return false;
  mode = c[1]; K = atoi(c.c_str() + 3); size_t a = c.find('|'), b = c.find('|', a + 1); lang = c.substr(a + 1, b - a - 1); u = H::unesc(c.substr(b + 1)); return true;
}
}
