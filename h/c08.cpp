// C08: every sequence of operations on line-count lists and delta lists, against an ordered map.
#include "h.h"
extern "C" {
#include "loc.h"
}
// Language names that share prefixes or differ in case only. Arguments are passed as private copies, so that a
// comparison by address, by prefix or without case is told apart from a comparison of names.
static const char *LANGS[] = {"c", "cpp", "C"};
static const char *ABSENT[] = {"", "cp", "cppx", "html", "CPP"};

struct LocT {
  enum { NF = 4 };
  typedef Loc Item; typedef LocList List;
  static const char *name() { return "loc"; }
  static Item *mk(const char *l, const int *v) { return ohcount_loc_new(l, v[0], v[1], v[2], v[3]); }
  static void freei(Item *i) { ohcount_loc_free(i); }
  static const char *lang(Item *i) { return i->language; }
  static void get(Item *i, int *v) { v[0] = i->code; v[1] = i->comments; v[2] = i->blanks; v[3] = i->filecount; }
  static Item *&item(List *l) { return l->loc; }
  static List *mkl() { return ohcount_loc_list_new(); }
  static void freel(List *l) { ohcount_loc_list_free(l); }
  static void add(List *l, Item *i) { ohcount_loc_list_add_loc(l, i); }
  static void merge(List *l, List *o) { ohcount_loc_list_add_loc_list(l, o); }
  static Item *find(List *l, const char *n) { return ohcount_loc_list_get_loc(l, n); }
  static List *compact(List *l) { return ohcount_loc_list_new_compact(l); }
  static bool keep(const int *v) { return v[0] + v[1] + v[2] != 0; }
  static void addto(Item *a, Item *b) { ohcount_loc_add_loc(a, b); }
  static int eq(Item *a, Item *b) { return ohcount_loc_is_equal(a, b); }
  // totals of a list with field sums s, and of one item
  static std::string totals(List *l, const long *s) {
    struct { const char *n; long got, want; } t[] = {
      {"code", ohcount_loc_list_code(l), s[0]}, {"comments", ohcount_loc_list_comments(l), s[1]},
      {"blanks", ohcount_loc_list_blanks(l), s[2]}, {"filecount", ohcount_loc_list_filecount(l), s[3]},
      {"total", ohcount_loc_list_total(l), s[0] + s[1] + s[2]}};
    for (auto &x : t) if (x.got != x.want) return std::string("list ") + x.n + " is " + std::to_string(x.got) + ", want " + std::to_string(x.want);
    return "";
  }
  static std::string itotals(Item *i, const int *v) {
    if (ohcount_loc_total(i) != v[0] + v[1] + v[2]) return "item total";
    return "";
  }
};
struct DeltaT {
  enum { NF = 6 };
  typedef LocDelta Item; typedef LocDeltaList List;
  static const char *name() { return "delta"; }
  static Item *mk(const char *l, const int *v) { return ohcount_loc_delta_new(l, v[0], v[1], v[2], v[3], v[4], v[5]); }
  static void freei(Item *i) { ohcount_loc_delta_free(i); }
  static const char *lang(Item *i) { return i->language; }
  static void get(Item *i, int *v) {
    v[0] = i->code_added; v[1] = i->code_removed; v[2] = i->comments_added; v[3] = i->comments_removed;
    v[4] = i->blanks_added; v[5] = i->blanks_removed;
  }
  static Item *&item(List *l) { return l->delta; }
  static List *mkl() { return ohcount_loc_delta_list_new(); }
  static void freel(List *l) { ohcount_loc_delta_list_free(l); }
  static void add(List *l, Item *i) { ohcount_loc_delta_list_add_loc_delta(l, i); }
  static void merge(List *l, List *o) { ohcount_loc_delta_list_add_loc_delta_list(l, o); }
  static Item *find(List *l, const char *n) { return ohcount_loc_delta_list_get_loc_delta(l, n); }
  static List *compact(List *l) { return ohcount_loc_delta_list_new_compact(l); }
  static bool keep(const int *v) { for (int i = 0; i < 6; i++) if (v[i]) return true; return false; }
  static void addto(Item *a, Item *b) { ohcount_loc_delta_add_loc_delta(a, b); }
  static int eq(Item *a, Item *b) { return ohcount_loc_delta_is_equal(a, b); }
  static std::string totals(List *l, const long *s) {
    struct { const char *n; long got, want; } t[] = {
      {"code_added", ohcount_loc_delta_list_code_added(l), s[0]}, {"code_removed", ohcount_loc_delta_list_code_removed(l), s[1]},
      {"comments_added", ohcount_loc_delta_list_comments_added(l), s[2]}, {"comments_removed", ohcount_loc_delta_list_comments_removed(l), s[3]},
      {"blanks_added", ohcount_loc_delta_list_blanks_added(l), s[4]}, {"blanks_removed", ohcount_loc_delta_list_blanks_removed(l), s[5]},
      {"net_code", ohcount_loc_delta_list_net_code(l), s[0] - s[1]}, {"net_comments", ohcount_loc_delta_list_net_comments(l), s[2] - s[3]},
      {"net_blanks", ohcount_loc_delta_list_net_blanks(l), s[4] - s[5]},
      {"net_total", ohcount_loc_delta_list_net_total(l), s[0] - s[1] + s[2] - s[3] + s[4] - s[5]}};
    for (auto &x : t) if (x.got != x.want) return std::string("list ") + x.n + " is " + std::to_string(x.got) + ", want " + std::to_string(x.want);
    return "";
  }
  static std::string itotals(Item *i, const int *v) {
    if (ohcount_loc_delta_net_code(i) != v[0] - v[1]) return "item net_code";
    if (ohcount_loc_delta_net_comments(i) != v[2] - v[3]) return "item net_comments";
    if (ohcount_loc_delta_net_blanks(i) != v[4] - v[5]) return "item net_blanks";
    if (ohcount_loc_delta_net_total(i) != v[0] - v[1] + v[2] - v[3] + v[4] - v[5]) return "item net_total";
    if (!!ohcount_loc_delta_is_changed(i) != keep(v)) return "item is_changed";
    return "";
  }
};

template <class T> struct Explore {
  typedef typename T::Item Item; typedef typename T::List List;
  enum { NF = T::NF };
  struct E { int lang; int v[NF]; };
  typedef std::vector<E> Ref; // ordered by first addition
  struct Op { int kind, list, lang, val; };
  std::vector<Op> ops;
  std::vector<std::vector<int>> vals;
  std::vector<std::string> keepnames; // storage of private name copies (entries keep the name they were given)
  List *L[2]; Ref R[2];
  std::vector<Op> path;
  Explore() {
    // zero; each field alone; all fields distinct; a pair that cancels
    vals.push_back(std::vector<int>(NF, 0));
    for (int f = 0; f < NF; f++) { std::vector<int> v(NF, 0); v[f] = f + 1; vals.push_back(v); }
    std::vector<int> d; for (int f = 0; f < NF; f++) d.push_back(10 + 7 * f * f); vals.push_back(d);
    if (NF == 6) { vals.push_back({3, 3, 0, 0, 0, 0}); vals.push_back({0, 2, 2, 0, 0, 0}); vals.push_back({1, 0, 0, 0, 0, 1}); }
    for (int l = 0; l < 2; l++) for (int g = 0; g < 3; g++) for (size_t v = 0; v < vals.size(); v++) ops.push_back({0, l, g, (int)v});
    for (int l = 0; l < 2; l++) { ops.push_back({1, l, 0, 0}); ops.push_back({2, l, 0, 0}); }
    ops.push_back({3, 0, 0, 0}); // merge a list into itself: every entry doubles
  }
  std::string pstr(const std::vector<int> &p) { std::string s = T::name(); for (int i : p) s += "," + std::to_string(i); return s; }
  std::string describe(const std::vector<int> &p) {
    std::string s;
    for (int i : p) {
      Op &o = ops[i];
      if (o.kind == 0) { s += std::string(o.list ? "B" : "A") + ".add(" + LANGS[o.lang]; for (int x : vals[o.val]) s += " " + std::to_string(x); s += ") "; }
      else if (o.kind == 1) s += o.list ? "B.merge(A) " : "A.merge(B) ";
      else if (o.kind == 2) s += o.list ? "B=B.compact " : "A=A.compact ";
      else s += "A.merge(A) ";
    }
    return s;
  }
  static void ref_add(Ref &r, int lang, const int *v) {
    for (auto &e : r) if (e.lang == lang) { for (int f = 0; f < NF; f++) e.v[f] += v[f]; return; }
    E e; e.lang = lang; memcpy(e.v, v, sizeof e.v); r.push_back(e);
  }
  // Compares list k with its reference through every query.
  std::string verify(List *l, const Ref &r) {
    H::stat("queries")++;
    long s[NF] = {0};
    size_t n = 0; List *it = l->head, *last = 0;
    for (; it; it = it->next, n++) {
      if (n >= r.size()) return "more entries than languages added";
      int v[NF]; T::get(T::item(it), v);
      if (strcmp(T::lang(T::item(it)), LANGS[r[n].lang])) return "entry " + std::to_string(n) + " is for " + T::lang(T::item(it));
      for (int f = 0; f < NF; f++) { if (v[f] != r[n].v[f]) return "entry " + std::to_string(n) + " field " + std::to_string(f) + " is " + std::to_string(v[f]) + ", want " + std::to_string(r[n].v[f]); s[f] += v[f]; }
      std::string m = T::itotals(T::item(it), v); if (m.size()) return m;
      last = it;
    }
    if (n != r.size()) return "entry missing";
    if (l->tail != last) return "tail is not the last entry";
    std::string m = T::totals(l, s); if (m.size()) return m;
    for (int g = 0; g < 3; g++) {
      std::string q(LANGS[g]);
      Item *i = T::find(l, q.c_str());
      const E *want = 0; for (auto &e : r) if (e.lang == g) want = &e;
      if (!i != !want) return "lookup of " + q;
      if (i) { int v[NF]; T::get(i, v); if (memcmp(v, want->v, sizeof v) || q != T::lang(i)) return "lookup of " + q + " gives another entry"; }
    }
    for (const char *a : ABSENT) if (T::find(l, a)) return std::string("lookup of absent ") + a;
    return "";
  }
  std::string apply(const Op &o) {
    List *&l = L[o.list];
    if (o.kind == 0) {
      static std::map<int, char *> priv[2];
      // a name at an address of its own; entries may keep the pointer, so it lives for ever
      char *&nm = priv[o.val & 1][o.lang]; if (!nm) nm = strdup(LANGS[o.lang]);
      const int *v = vals[o.val].data();
      Item *i = T::mk(nm, v);
      int w[NF]; T::get(i, w);
      if (memcmp(w, v, sizeof w)) return "new item does not hold the numbers it was given";
      T::add(l, i);
      T::get(i, w);
      if (memcmp(w, v, sizeof w) || strcmp(T::lang(i), LANGS[o.lang])) return "add altered its argument";
      // spoil the argument: the list must hold a copy
      int z[NF]; for (int f = 0; f < NF; f++) z[f] = 1000000;
      Item *j = T::mk(nm, z); *i = *j; T::freei(j); T::freei(i);
      ref_add(R[o.list], o.lang, v);
    } else if (o.kind == 1) {
      T::merge(l, L[1 - o.list]);
      for (auto &e : R[1 - o.list]) ref_add(R[o.list], e.lang, e.v);
    } else if (o.kind == 2) {
      List *c = T::compact(l);
      if (c == l) return "compact returned the same list";
      std::string m = verify(l, R[o.list]); if (m.size()) return "compact altered its argument: " + m;
      T::freel(l); l = c; // the copy must survive the original
      Ref r; for (auto &e : R[o.list]) if (T::keep(e.v)) r.push_back(e);
      R[o.list] = r;
    } else {
      T::merge(L[0], L[0]);
      for (auto &e : R[0]) for (int f = 0; f < NF; f++) e.v[f] *= 2;
    }
    return "";
  }
  std::string run(const std::vector<int> &p, bool every = false) {
    for (int k = 0; k < 2; k++) { L[k] = T::mkl(); R[k].clear(); }
    std::string m;
    for (size_t i = 0; i < p.size() && m.empty(); i++) {
      m = apply(ops[p[i]]);
      if (m.empty() && (every || i + 1 == p.size())) for (int k = 0; k < 2 && m.empty(); k++) { m = verify(L[k], R[k]); if (m.size()) m = std::string(k ? "B: " : "A: ") + m; }
    }
    for (int k = 0; k < 2; k++) T::freel(L[k]);
    return m;
  }
  void check(const std::vector<int> &p) {
    H::set_case(pstr(p));
    H::stat("transitions")++;
    std::string m = run(p);
    if (m.size()) H::viol(T::name(), pstr(p), describe(p) + ": " + m);
    else if (p.size() == 3) H::sample(describe(p));
  }
  std::string canon() {
    std::string s;
    for (int k = 0; k < 2; k++) { s += '|'; for (auto &e : R[k]) { s += (char)('0' + e.lang); s.append((char *)e.v, sizeof e.v); } }
    return s;
  }
  // all sequences up to depth d, no state merging; the first operation is divided among the shards
  void tree(int d) {
    std::vector<int> p;
    std::function<void(int)> rec = [&](int left) {
      for (int i = 0; i < (int)ops.size(); i++) {
        if (p.empty() && i % H::nshards != H::shard) continue;
        p.push_back(i); check(p);
        if (left > 1) rec(left - 1);
        p.pop_back();
      }
    };
    rec(d);
  }
  // breadth-first over distinct reference states, with a reduced value set, to a greater depth: two histories with
  // the same reference state must be indistinguishable, so one representative of each is continued. Each transition
  // is replayed on fresh objects. States are divided among the shards by their hash only for checking.
  void bfs(int d, size_t cap) {
    std::vector<int> red;
    for (int i = 0; i < (int)ops.size(); i++) if (ops[i].kind || ops[i].val == 0 || ops[i].val == 1 || ops[i].val == NF + 1 || (NF == 6 && ops[i].val == NF + 2)) red.push_back(i);
    std::set<std::string> seen; std::vector<std::vector<int>> fr{{}};
    long n = 0;
    for (int k = 0; k < d && seen.size() < cap; k++) {
      std::vector<std::vector<int>> nx;
      for (auto &h : fr) for (int i : red) {
        auto p = h; p.push_back(i);
        // the reference state, without running the code
        Ref r[2];
        for (int q : p) {
          Op &o = ops[q];
          if (o.kind == 0) ref_add(r[o.list], o.lang, vals[o.val].data());
          else if (o.kind == 1) { for (auto &e : r[1 - o.list]) ref_add(r[o.list], e.lang, e.v); }
          else if (o.kind == 2) { Ref c; for (auto &e : r[o.list]) if (T::keep(e.v)) c.push_back(e); r[o.list] = c; }
          else for (auto &e : r[0]) for (int f = 0; f < NF; f++) e.v[f] *= 2;
        }
        R[0] = r[0]; R[1] = r[1];
        std::string c = canon();
        if (n++ % H::nshards == H::shard) check(p);
        if (seen.insert(c).second) { nx.push_back(p); if (seen.size() % H::nshards == (size_t)H::shard) H::stat("states")++; }
      }
      fr.swap(nx);
    }
  }
  void pairs() { // item-level operations
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (auto &x : vals) for (auto &y : vals) {
      std::string na(LANGS[a]), nb(LANGS[b]);
      H::set_case("pair"); H::stat("transitions")++;
      Item *i = T::mk(na.c_str(), x.data()), *j = T::mk(nb.c_str(), y.data());
      bool eq = a == b && x == y;
      std::string c = std::string(T::name()) + "-pair"; std::string d = na + "/" + nb;
      for (int v : x) d += " " + std::to_string(v); d += " /"; for (int v : y) d += " " + std::to_string(v);
      if (!!T::eq(i, j) != eq) H::viol(c, d, "equality");
      std::string m = T::itotals(i, x.data()); if (m.size()) H::viol(c, d, m);
      T::addto(i, j);
      int w[NF], z[NF]; T::get(i, w); T::get(j, z);
      for (int f = 0; f < NF; f++) { if (w[f] != x[f] + (a == b ? y[f] : 0)) H::viol(c, d, "sum"); if (z[f] != y[f]) H::viol(c, d, "argument altered"); }
      T::freei(i); T::freei(j);
    }
  }
  // lists of n languages: filled in steps, summed twice over, merged with one that shares every third language, and
  // compacted where each drop-th entry holds nothing
  struct W { std::string name; std::vector<int> v; };
  std::string wide_verify(List *l, const std::vector<W> &r) {
    long s[NF] = {0}; size_t n = 0; List *last = 0;
    for (List *it = l->head; it; it = it->next, n++) {
      if (n >= r.size()) return "more entries than languages";
      int v[NF]; T::get(T::item(it), v);
      if (r[n].name != T::lang(T::item(it))) return "entry " + std::to_string(n) + " is for " + T::lang(T::item(it)) + ", want " + r[n].name;
      for (int f = 0; f < NF; f++) { if (v[f] != r[n].v[f]) return "entry " + std::to_string(n) + " field " + std::to_string(f) + " is " + std::to_string(v[f]) + ", want " + std::to_string(r[n].v[f]); s[f] += v[f]; }
      last = it;
    }
    if (n != r.size()) return "entries missing: " + std::to_string(n) + " of " + std::to_string(r.size());
    if (l->tail != last) return "tail is not the last entry";
    std::string m = T::totals(l, s); if (m.size()) return m;
    for (auto &e : r) { Item *i = T::find(l, std::string(e.name).c_str()); if (!i || e.name != T::lang(i)) return "lookup of " + e.name; }
    if (T::find(l, "l") || T::find(l, "l999") || T::find(l, "L1")) return "lookup of an absent language";
    return "";
  }
  std::string wide1(int n, int stride, int drop) {
    static std::map<std::string, char *> keep; // entries may keep the name's pointer
    auto nm = [&](const std::string &x) { auto &p = keep[x]; if (!p) p = strdup(x.c_str()); return p; };
    std::vector<W> ra, rb;
    auto put = [&](List *l, std::vector<W> &r, const std::string &x, std::vector<int> v) {
      Item *i = T::mk(nm(x), v.data()); T::add(l, i); T::freei(i);
      for (auto &e : r) if (e.name == x) { for (int f = 0; f < NF; f++) e.v[f] += v[f]; return; }
      r.push_back({x, v}); };
    auto val = [&](int i, int k) { std::vector<int> v(NF, 0); if (!drop || i % (drop + 1)) for (int f = 0; f < NF; f++) v[f] = (i * 7 + f * 3 + k) % 5 * (i % 2 ? 1 : 70001); return v; };
    List *a = T::mkl(), *b = T::mkl(); std::string m;
    for (int k = 0; k < 2; k++) for (int s = 0; s < stride; s++) for (int i = s; i < n; i += stride) put(a, ra, "l" + std::to_string(i), val(i, k));
    m = wide_verify(a, ra);
    for (int i = n - 1; i >= 0; i--) put(b, rb, i % 3 ? "m" + std::to_string(i) : "l" + std::to_string(i), val(i, 3));
    if (m.empty()) { m = wide_verify(b, rb); if (m.size()) m = "second list: " + m; }
    T::merge(a, b);
    for (auto &e : rb) { bool f = false; for (auto &x : ra) if (x.name == e.name) { f = true; for (int k = 0; k < NF; k++) x.v[k] += e.v[k]; } if (!f) ra.push_back(e); }
    if (m.empty()) { m = wide_verify(a, ra); if (m.size()) m = "merged: " + m; }
    if (m.empty()) { m = wide_verify(b, rb); if (m.size()) m = "merge altered its argument: " + m; }
    List *c = T::compact(a); std::vector<W> rc; for (auto &e : ra) if (T::keep(e.v.data())) rc.push_back(e);
    if (m.empty()) { m = wide_verify(c, rc); if (m.size()) m = "compact: " + m; }
    if (m.empty()) { m = wide_verify(a, ra); if (m.size()) m = "compact altered its argument: " + m; }
    T::freel(a); T::freel(b); T::freel(c);
    return m;
  }
  void wide(bool th) {
    int k = 0;
    for (int n = 1; n <= (th ? 400 : 150); n++) for (int stride : {1, 2, 7}) for (int drop = 0; drop < 4; drop++) if (k++ % H::nshards == H::shard) {
      std::string c = std::string("wide-") + T::name() + "," + std::to_string(n) + "," + std::to_string(stride) + "," + std::to_string(drop);
      H::set_case(c); H::stat("transitions") += 4 * n; std::string m = wide1(n, stride, drop);
      if (m.size()) H::viol(T::name(), c, std::to_string(n) + " languages: " + m);
    }
  }
  void go(int td, int bd, size_t cap) { if (H::shard == 0) pairs(); tree(td); bfs(bd, cap); }
};
int main(int argc, char **argv) {
  H::init(argc, argv);
  int off = H::replaying ? 3 : 3;
  int td = argc > off ? atoi(argv[off]) : 3, bd = argc > off + 1 ? atoi(argv[off + 1]) : 4; size_t cap = argc > off + 2 ? atol(argv[off + 2]) : 100000;
  Explore<LocT> a; Explore<DeltaT> b;
  if (H::replaying) {
    std::vector<int> p; std::string c = H::replay_case; size_t k = c.find(',');
    std::string kind = c.substr(0, k);
    while (k != std::string::npos) { p.push_back(atoi(c.c_str() + k + 1)); k = c.find(',', k + 1); }
    if (kind.compare(0, 5, "wide-") == 0) { std::string m = kind == "wide-loc" ? a.wide1(p[0], p[1], p[2]) : b.wide1(p[0], p[1], p[2]); printf("%s\n", m.c_str()); return m.size() ? 1 : 0; }
    std::string m = kind == "loc" ? a.run(p, true) : b.run(p, true);
    printf("%s\n", m.c_str());
    return m.size() ? 1 : 0;
  }
  a.go(td, bd, cap); b.go(td > 3 ? td - 1 : td, bd, cap);
  a.wide(td > 3); b.wide(td > 3);
  return H::done();
}
