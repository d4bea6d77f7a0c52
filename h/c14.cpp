// C14: every small directory tree, in every listing order, walked by the library and compared with a reference list.
#include "h.h"
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
extern "C" {
#include "sourcefile.h"
}
using std::string; using std::vector;
// ---- the listing order is the environment's choice
static int g_order = 0, g_unknown = 0; // order: index of the permutation of each directory's entries
struct Listing { vector<struct dirent> e; size_t pos; };
static std::map<DIR *, Listing> g_open;
static long g_listed = 0;
extern "C" DIR *opendir(const char *p) {
  static auto f = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir"); static auto r = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
  DIR *d = f(p); if (!d) return d;
  Listing l; l.pos = 0; while (auto e = r(d)) l.e.push_back(*e);
  rewinddir(d);
  std::sort(l.e.begin(), l.e.end(), [](auto &a, auto &b) { return strcmp(a.d_name, b.d_name) < 0; });
  long o = g_order; vector<struct dirent> q; // factorial number system, modulo the number of orders
  for (size_t k = l.e.size(); k > 0; k--) { size_t i = o % k; o /= k; q.push_back(l.e[i]); l.e.erase(l.e.begin() + i); }
  l.e = q; if (g_unknown) for (auto &x : l.e) x.d_type = DT_UNKNOWN;
  g_open[d] = l; return d;
}
extern "C" struct dirent *readdir(DIR *d) { static auto r = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir"); if (!g_open.count(d)) return r(d); auto &l = g_open[d]; if (l.pos >= l.e.size()) return 0; g_listed++; return &l.e[l.pos++]; }
extern "C" int closedir(DIR *d) { static auto f = (int (*)(DIR *)) dlsym(RTLD_NEXT, "closedir"); g_open.erase(d); return f(d); }
// ---- trees
enum T { REG, DIRT, LFILE, LDIR, LUP, LNONE, FIFO, SOCK, HARD, NT };
static const char *TN[] = {"file", "dir", "link-to-file", "link-to-dir", "link-up", "dangling", "fifo", "socket", "hardlink"};
static string root; // scratch
struct Node { int type, name, parent; };
static const vector<string> NAMES = {"n", ".n", "..n", "n n.c", "-", "n.", "Makefile", "\xff\n"};
static int nnames = 3;
static string node_name(const Node &n, int i) { return (n.name == 4 ? string(i + 1, '-') : n.name == 3 ? std::to_string(i) + NAMES[3] : n.name == 6 && i ? NAMES[6] + std::to_string(i) : NAMES[n.name] + (n.name == 6 ? "" : std::to_string(i))); }
static string describe(const vector<Node> &t) { string s; char b[64]; for (auto &n : t) { snprintf(b, 64, "%d.%d.%d ", n.type, n.name, n.parent); s += b; } return s; }
static vector<Node> undescribe(const string &s) { vector<Node> t; const char *p = s.c_str(); int k; Node n; while (sscanf(p, "%d.%d.%d %n", &n.type, &n.name, &n.parent, &k) == 3) { t.push_back(n); p += k; } return t; }
static string hard; static const string OUTF = "outside";
static void make(const string &base, const vector<Node> &t, vector<string> &paths) {
  mkdir(base.c_str(), 0755); paths.clear();
  for (size_t i = 0; i < t.size(); i++) {
    string p = (t[i].parent < 0 ? base : paths[t[i].parent]) + "/" + node_name(t[i], i); paths.push_back(p);
    switch (t[i].type) {
      case REG: { int f = open(p.c_str(), O_CREAT | O_WRONLY, 0600); close(f); break; }
      case DIRT: mkdir(p.c_str(), 0755); break;
      case LFILE: (void)!symlink((root + "/outside/f.c").c_str(), p.c_str()); break;
      case LDIR: (void)!symlink((root + "/outside").c_str(), p.c_str()); break;
      case LUP: (void)!symlink(".", p.c_str()); break;
      case LNONE: (void)!symlink("nothing/there", p.c_str()); break;
      case FIFO: mkfifo(p.c_str(), 0600); break;
      case SOCK: { int s = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, p.c_str(), sizeof a.sun_path - 1); bind(s, (sockaddr *)&a, sizeof a); close(s); break; }
      case HARD: (void)!link((root + "/outside/f.c").c_str(), p.c_str()); break;
    }
  }
}
static void unmake(const string &base, const vector<Node> &t, const vector<string> &paths) {
  for (size_t i = t.size(); i-- > 0;) if (t[i].type == DIRT) rmdir(paths[i].c_str()); else unlink(paths[i].c_str());
  rmdir(base.c_str());
}
static vector<string> expected(const string &arg, const vector<Node> &t) {
  vector<string> rel(t.size()), r; vector<char> hidden(t.size());
  for (size_t i = 0; i < t.size(); i++) {
    string nm = node_name(t[i], i); int p = t[i].parent; hidden[i] = p >= 0 && (hidden[p] || node_name(t[p], p)[0] == '.');
    rel[i] = (p < 0 ? arg : rel[p]) + "/" + nm;
    if ((t[i].type == REG || t[i].type == HARD) && !hidden[i]) r.push_back(rel[i]);
  }
  return r;
}
static string norm(const string &s) { string r; for (char c : s) { if (c == '/' && !r.empty() && r.back() == '/') continue; r += c; } return r; }
static void check(const string &cas, const vector<string> &args, vector<string> want, bool prefile) {
  H::set_case(cas); H::progress++; H::stat("walks")++;
  SourceFileList *l = ohcount_sourcefile_list_new();
  if (prefile) { ohcount_sourcefile_list_add_file(l, "first.c"); want.push_back("first.c"); }
  for (auto &a : args) ohcount_sourcefile_list_add_directory(l, a.c_str());
  vector<string> got; string bad;
  for (SourceFileList *i = l->head; i; i = i->next) {
    string p = i->sf->filepath, n = i->sf->filename; got.push_back(norm(p)); H::stat("files")++;
    if (p.substr(p.rfind('/') == string::npos ? 0 : p.rfind('/') + 1) != n) bad = "file name " + n + " of " + p;
    if (got.size() > 10000) break;
  }
  for (auto &w : want) w = norm(w);
  std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  if (got != want || bad.size() || !g_open.empty()) {
    string m = "reported:"; for (auto &g : got) m += " " + H::esc(g); m += " instead of:"; for (auto &w : want) m += " " + H::esc(w); if (!g_open.empty()) m += " (directory left open)";
    size_t q; while ((q = m.find(root)) != string::npos) m.replace(q, root.size(), "");
    H::viol("walk", cas, m + bad); g_open.clear();
  }
  ohcount_sourcefile_list_free(l);
}
// how the directory is named: 0 absolute, 1 trailing slash, 2 relative, 3 '.', 4 hidden root, 5 symlink root, 6 './x'
static void one(const vector<Node> &t, int order, int unknown, int naming) {
  string cas = "tree|" + describe(t) + "|" + std::to_string(order) + "|" + std::to_string(unknown) + "|" + std::to_string(naming);
  string name = naming == 4 ? ".hid" : "d", base = root + "/" + name; vector<string> paths; make(base, t, paths);
  g_order = order; g_unknown = unknown; H::stat("trees")++;
  string arg = naming == 1 ? base + "/" : naming == 2 || naming == 4 ? name : naming == 3 ? "." : naming == 6 ? "./d" : base;
  if (naming == 3) (void)!chdir(base.c_str());
  if (naming == 7) { symlink(base.c_str(), (root + "/lnk").c_str()); arg = root + "/lnk"; }
  vector<string> w = expected(arg, t);
  check(cas, {arg}, w, order & 1);
  if (naming == 5) { auto w2 = w; w2.insert(w2.end(), w.begin(), w.end()); check(cas, {arg, arg}, w2, false); auto w3 = w2; w3.push_back(root + "/outside/f.c"); check(cas, {arg, root + "/outside", arg}, w3, true); check(cas, {arg, root + "/none", root + "/outside/f.c", arg}, w2, false); }
  if (naming == 3) (void)!chdir(root.c_str());
  if (naming == 7) unlink((root + "/lnk").c_str());
  unmake(base, t, paths);
}
static long n_ = 0; static bool mine() { return n_++ % H::nshards == H::shard; }
static void gen(vector<Node> &t, int depth, const std::function<void(const vector<Node> &)> &f) {
  if ((int)t.size() == depth) { f(t); return; }
  for (int p = -1; p < (int)t.size(); p++) { if (p >= 0 && t[p].type != DIRT) continue;
    for (int ty = 0; ty < NT; ty++) for (int nm = 0; nm < nnames; nm++) { t.push_back({ty, nm, p}); gen(t, depth, f); t.pop_back(); } }
}
static void deep(int levels, size_t len, bool hidden_last) { // a chain of directories with a file at every level
  string cas = "deep|" + std::to_string(levels) + "|" + std::to_string(len) + "|" + std::to_string(hidden_last);
  H::set_case(cas); string cwd = root + "/deep", p = cwd; vector<string> want, dirs{p}; mkdir(p.c_str(), 0755);
  vector<string> made; (void)!chdir(p.c_str());
  for (int i = 0; i < levels; i++) {
    string nm(len, 'a' + i % 26); if (hidden_last && len > 1 && i == levels - 1) nm[0] = '.';
    int f = open("f.c", O_CREAT | O_WRONLY, 0600); close(f);
    if (p.size() + 4 < FILENAME_MAX) want.push_back(p + "/f.c");
    mkdir(nm.c_str(), 0755); made.push_back(nm); if (chdir(nm.c_str())) break; p += "/" + nm;
  }
  { int f = open("g.c", O_CREAT | O_WRONLY, 0600); close(f); if (p.size() + 4 < FILENAME_MAX && !hidden_last) want.push_back(p + "/g.c"); }
  (void)!chdir(root.c_str());
  g_order = 0; g_unknown = 0; check(cas, {cwd}, want, false);
  // remove: descend again
  (void)!chdir(cwd.c_str()); for (auto &m : made) (void)!chdir(m.c_str());
  unlink("g.c"); for (size_t i = made.size(); i-- > 0;) { (void)!chdir(".."); rmdir(made[i].c_str()); unlink("f.c"); }
  (void)!chdir(root.c_str()); rmdir(cwd.c_str());
}
static void wide(int n) {
  string cas = "wide|" + std::to_string(n); H::set_case(cas); vector<Node> t; for (int i = 0; i < n; i++) t.push_back({i % 7 == 3 ? DIRT : i % 11 == 5 ? LFILE : REG, 0, i % 7 == 4 && i % 11 != 6 ? i - 1 : -1});
  for (auto &x : t) if (x.parent >= 0 && t[x.parent].type != DIRT) x.parent = -1;
  one(t, 0, 0, 0); one(t, 12345, 1, 0);
}
static void cleanup() { (void)!chdir("/"); unlink((root + "/outside/f.c").c_str()); rmdir((root + "/outside").c_str()); rmdir(root.c_str()); }
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard(60); H::set_case("setup");
  char tmpl[] = "/tmp/c14-XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 4; } root = tmpl;
  mkdir((root + "/outside").c_str(), 0755); { int f = open((root + "/outside/f.c").c_str(), O_CREAT | O_WRONLY, 0600); close(f); } (void)!chdir(root.c_str());
  auto split = [](const string &s) { vector<string> v; string c; for (char x : s) if (x == '|') { v.push_back(c); c.clear(); } else c += x; v.push_back(c); return v; };
  if (H::replaying) {
    auto v = split(H::replay_case);
    if (v[0] == "tree") one(undescribe(v[1]), atoi(v[2].c_str()), atoi(v[3].c_str()), atoi(v[4].c_str()));
    else if (v[0] == "deep") deep(atoi(v[1].c_str()), atoi(v[2].c_str()), atoi(v[3].c_str())); else if (v[0] == "wide") wide(atoi(v[1].c_str()));
    cleanup(); return H::done();
  }
  bool th = argc > 3 && !strcmp(argv[3], "thorough"); vector<Node> t;
  auto orders = [&](const vector<Node> &t) { // all orders of the largest directory's entries, '.' and '..' included
    std::map<int, int> k; int mx = 0; for (auto &n : t) mx = std::max(mx, ++k[n.parent]); mx += 2; int f = 1; for (int i = 2; i <= mx; i++) f *= i; return f; };
  // up to two entries: all names, all orders, all ways to name the directory
  nnames = NAMES.size();
  for (int d = 0; d <= 2; d++) gen(t, d, [&](const vector<Node> &t) { if (!mine()) return; int o = orders(t); for (int i = 0; i < o; i++) one(t, i, i & 1, d == 2 ? (i / 2) % 8 : 0); if (d < 2) for (int nm = 0; nm < 8; nm++) for (int i = 0; i < o; i++) one(t, i, nm & 1, nm); });
  // three entries: plain and hidden names, all types, four orders
  nnames = 2;
  gen(t, 3, [&](const vector<Node> &t) { if (!mine()) return; int o = orders(t); for (int i = 0; i < (th ? o : 3); i++) one(t, th ? i : (i * 37 + (n_ / H::nshards) * 7) % o, i & 1, (i + n_) % 8); });
  // four entries, directories and files only: all shapes, one order each (thorough: eight)
  if (1) { std::function<void(int)> g4; vector<Node> u; int D = th ? 6 : 5;
    g4 = [&](int k) { if (k == 0) { if (!mine()) return; int o = orders(u); for (int i = 0; i < (th ? 8 : 1); i++) one(u, (i * 37 + n_ * 11) % o, 0, 0); return; }
      for (int p = -1; p < (int)u.size(); p++) { if (p >= 0 && u[p].type != DIRT) continue; for (int ty : {REG, DIRT}) for (int nm = 0; nm < (ty == DIRT ? 2 : 1); nm++) { u.push_back({ty, nm, p}); g4(k - 1); u.pop_back(); } } };
    for (int d = 4; d <= D; d++) g4(d); }
  // deep and wide trees
  for (int l : {1, 2, 3, 5, 10, 20, 60}) for (size_t len : {1, 50, 199, 200, 201, 255}) for (int h = 0; h < (len > 1 ? 2 : 1); h++) if (mine()) deep(l, len, h);
  for (int tot = 4060; tot <= 4100; tot++) if (mine()) { // paths around the longest one
    int l = 19, base = root.size() + 5; deep(l, (tot - base) / l - 1, 0); }
  for (size_t len = 180; len <= 255; len++) if (mine()) deep(25, len, 0);
  for (int n : {10, 100, 1000}) if (mine()) wide(n);
  H::stat("listed") = g_listed;
  if (H::shard == 0) H::sample("tree " + describe({{REG, 0, -1}, {DIRT, 0, -1}, {LUP, 0, 1}, {REG, 1, 1}}) + "order 17");
  cleanup(); return H::done();
}
