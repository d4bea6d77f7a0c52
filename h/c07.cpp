// C07: every pair of small texts, against the textbook longest-common-subsequence table.
#include "h.h"
extern "C" {
#include "diff.h"
}
typedef std::vector<std::string> Lines;
static void ref(const Lines &a, const Lines &b, int &added, int &removed) {
  int n = a.size(), m = b.size();
  std::vector<std::vector<int>> L(n + 1, std::vector<int>(m + 1, 0));
  for (int i = 1; i <= n; i++) for (int j = 1; j <= m; j++)
    L[i][j] = a[i-1] == b[j-1] ? L[i-1][j-1] + 1 : std::max(L[i-1][j], L[i][j-1]);
  removed = n - L[n][m]; added = m - L[n][m];
}
// the non-empty lines of a text; LF, FF and a CR without LF end a line, the CR before an LF is part of it
static Lines split(const std::string &t) {
  Lines r; std::string cur;
  for (size_t i = 0; i < t.size(); i++) {
    char c = t[i];
    if (c == '\n' || c == '\f' || (c == '\r' && (i + 1 >= t.size() || t[i + 1] != '\n'))) { if (cur.size()) r.push_back(cur); cur.clear(); } else cur += c;
  }
  if (cur.size()) r.push_back(cur);
  return r;
}
static bool check(const std::string &from, const std::string &to, const char *what) {
  H::stat("pairs")++;
  std::string c = (from.size() + to.size() > 4000) ? "" : H::esc(from) + "|" + H::esc(to);
  if (c.size()) H::set_case(c);
  int a = -7, r = -7, wa, wr;
  ohcount_calc_diff(from.c_str(), to.c_str(), &a, &r);
  ref(split(from), split(to), wa, wr);
  if (wa + wr) H::stat("differing")++;
  if (a != wa || r != wr) {
    if (c.empty()) c = std::string(what) + ":" + std::to_string(from.size()) + "," + std::to_string(to.size()) + ":" + H::esc(from.substr(from.size() > 60 ? from.size() - 60 : 0)) + "|" + H::esc(to.substr(to.size() > 60 ? to.size() - 60 : 0));
    H::viol(what, c, "added " + std::to_string(a) + " removed " + std::to_string(r) + ", minimum edit is added " + std::to_string(wa) + " removed " + std::to_string(wr));
    return false;
  }
  return true;
}
static std::vector<std::vector<int>> seqs(int k, int n) {
  std::vector<std::vector<int>> r{{}}; size_t lo = 0;
  for (int l = 1; l <= n; l++) { size_t hi = r.size(); for (size_t i = lo; i < hi; i++) for (int s = 0; s < k; s++) { auto v = r[i]; v.push_back(s); r.push_back(v); } lo = hi; }
  return r;
}
static std::string text(const std::vector<int> &s, const Lines &al, const char *sep = "\n", bool last = true) {
  std::string t; for (size_t i = 0; i < s.size(); i++) { t += al[s[i]]; if (i + 1 < s.size() || last) t += sep; } return t;
}
static long turn = 0;
static bool mine() { return turn++ % H::nshards == H::shard; }
static void all_pairs(const Lines &al, int n, const char *what, bool variants) {
  auto S = seqs(al.size(), n);
  for (auto &x : S) {
    if (!mine()) continue;
    std::string fx = text(x, al);
    for (auto &y : S) {
      std::string fy = text(y, al);
      check(fx, fy, what);
      if (variants) {
        check(text(x, al, "\n", false), fy, what); check(fx, text(y, al, "\n", false), what);
        check(text(x, al, "\n\n"), fy, what); check("\n" + fx, text(y, al, "\n", false), what);
      }
    }
  }
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  bool thorough = argc > 3 && !strcmp(argv[3], "thorough");
  if (H::replaying) {
    size_t k = H::replay_case.find('|');
    return check(H::unesc(H::replay_case.substr(0, k)), H::unesc(H::replay_case.substr(k + 1)), "replay") ? 0 : 1;
  }
  // structure: all sequence pairs
  all_pairs({"a", "b", "c"}, thorough ? 7 : 6, "lines", false);
  all_pairs({"a", "b"}, thorough ? 10 : 8, "lines", false);
  all_pairs({"a", "b", "c", "d"}, thorough ? 6 : 5, "lines", false);
  // lines that a careless comparison confuses; unterminated and empty lines
  const Lines sets[] = {{"a", "aa", "aaa"}, {"abc", "bca", "cba"}, {"x", " x", "x "}, {"<", ">", "---"}, {"a", "A", "\xe4"},
                        {"\\ No newline at end of file", "1c1", "a\r"}, {"\x01", "\xff", "\x7f"}, {"a\tb", "a b", "ab"}, {"a", "a\r", "a\rb"}, {"a\fb", "b", "\ra"}};
  for (auto &s : sets) all_pairs(s, thorough ? 5 : 4, "texts", true);
  // equality of single lines: all pairs of short strings over a small byte alphabet
  {
    const char by[] = {'a', 'b', 'c', 'd', 'e', ' ', '\t', (char)0x80, (char)0xff, '\x7f', 'A', '0'};
    std::vector<std::string> W;
    auto S = seqs(12, thorough ? 3 : 2);
    for (auto &s : S) { std::string w; for (int i : s) w += by[i]; W.push_back(w); }
    auto S5 = seqs(5, thorough ? 5 : 3);
    for (auto &s : S5) { std::string w; for (int i : s) w += by[i]; W.push_back(w); }
    for (auto &x : W) { if (!mine()) continue; for (auto &y : W) check(x + "\n", y + "\n", "equality"); }
  }
  // long lines that differ by one character, or by two characters exchanged
  for (int n : {8, 16, 17, 40, 70, 300}) for (int i = 0; i < n; i++) {
    if (!mine()) continue;
    std::string base; for (int q = 0; q < n; q++) base += (char)('a' + q * 7 % 26);
    for (int d : {1, 2, 16, 32, 64, 128}) { std::string y = base; y[i] = (char)(y[i] ^ d); if (y[i] == '\n' || !y[i]) continue; check("x\n" + base + "\n", "x\n" + y + "\n", "equality"); }
    for (int j = i + 1; j < n; j++) {
      std::string y = base; std::swap(y[i], y[j]); check(base + "\nq\n", y + "\nq\n", "equality");
      for (int d : {1, 2, 4, 8}) { std::string z = base; z[i] += d; z[j] -= d; if (n <= 70) check(base + "\n", z + "\n", "equality"); }
    }
  }
  // one block moved, copied, removed or reversed in a file of distinct lines: longer candidate lists
  for (int n : {12, 25, 40}) for (int i = 0; i < n; i++) for (int w : {1, 2, 5}) {
    if (!mine()) continue;
    if (i + w > n) continue;
    Lines L; for (int q = 0; q < n; q++) L.push_back("line " + std::to_string(q * 37 % n));
    auto join = [](const Lines &l) { std::string t; for (auto &s : l) t += s + "\n"; return t; };
    Lines rest(L); rest.erase(rest.begin() + i, rest.begin() + i + w);
    check(join(L), join(rest), "blocks"); check(join(rest), join(L), "blocks");
    for (int j = 0; j <= (int)rest.size(); j++) {
      Lines mv(rest); mv.insert(mv.begin() + j, L.begin() + i, L.begin() + i + w);
      check(join(L), join(mv), "blocks");
      std::reverse(mv.begin() + std::min(i, j), mv.end()); check(join(L), join(mv), "blocks");
      Lines cp(L); cp.insert(cp.begin() + j, L.begin() + i, L.begin() + i + w); check(join(cp), join(mv), "blocks"); check(join(L), join(cp), "blocks");
    }
  }
  // texts beyond the size at which another method is used: the same small texts after a long common line
  {
    const Lines al = {"a", "b", "< c"};
    auto S = seqs(3, 3);
    std::string big(100001, 'p'); big += "\n";
    for (auto &x : S) { if (!mine()) continue; for (auto &y : S) if (thorough || x.size() + y.size() <= 5) {
      check(big + text(x, al), big + text(y, al), "large");
      if (x.size() && y.size() && x.size() + y.size() <= 3) { check(big + text(x, al, "\n", false), big + text(y, al), "large"); check(text(x, al), big + text(y, al), "large"); }
    } }
    // sizes around the threshold, and long lines with a marker character at every place where they could be cut
    for (int n = 99995; n <= 100006; n++) { if (!mine()) continue; std::string t(n - 2, 'q'); check(t + "\nx", "x\n", "large"); check("y\n", t + "\nx", "large"); check(t + "\n", t + "\ny", "large"); }
    for (int cut : {4095, 4096, 8191, 8192, 9996, 9997, 9998, 9999, 10000, 19996, 19997, 19998}) {
      if (!mine()) continue;
      for (char m : {'<', '>'}) { std::string t(100100, 'q'); for (int d = -3; d <= 3; d++) t[cut + d] = m; check("x\n", t + "\n", "large"); check(t + "\nz\n", "x\n", "large"); }
    }
    // many changed lines
    for (int st : {2, 3, 5, 7}) { if (!mine()) continue; std::string A, B; Lines la; for (int q = 0; q < 1600; q++) { std::string l = "some line of code number " + std::to_string(q % 97) + std::string(60, 'x') + "\n"; A += l; if (q % st) B += l; else B += "changed " + l; } check(A, B, "large"); check(B, A, "large"); }
  }
  H::sample("from \"a\\nb\\nc\\n\" to \"c\\na\\n\"");
  return H::done();
}
