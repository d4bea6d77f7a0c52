// C13: every run of the program and the library with every I/O call failing (and pairs of them), on real files in a scratch directory.
#include "report.h"
#include <dirent.h>
#include <errno.h>
#include <magic.h>
#include <setjmp.h>
#include <sys/resource.h>
#include <sys/stat.h>
extern "C" {
#include "diff.h"
#include "detector.h"
#include "licenses.h"
}
// ---- the environment: every call is numbered, and fails when the plan says so
struct Call { const char *fn; string path; int modes; };
static bool on = false; static vector<Call> trace; static std::map<int, int> plan; // number of a call -> way to fail (from 1)
static std::function<int(const char *, const string &)> always; // persistent failures
static std::set<string> hit; static std::set<string> hit_dirs; // paths of files and directories whose calls have failed
static std::map<FILE *, string> files; static std::map<DIR *, string> dirs; static std::map<FILE *, bool> bad_stream; static std::set<FILE *> pipes;
static std::map<int, string> tmpfds; static std::map<string, bool> tmps; // temporary files: may it be left (its removal failed)?
static int cookies = 0; static string last_path; static jmp_buf out_of_run; static bool exited; static string failed_fns;
static int fault(const char *fn, const string &path, int modes, bool dir = false) {
  int i = trace.size(); trace.push_back({fn, path, modes}); H::stat("transitions")++;
  int m = 0; auto p = plan.find(i); if (p != plan.end()) m = p->second; else if (always) m = always(fn, path);
  if (m) { (dir ? hit_dirs : hit).insert(path); failed_fns += string(fn) + "(" + path + ") "; errno = m == 2 ? EMFILE : EIO; }
  return m;
}
extern "C" {
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *); int __real_fseeko(FILE *, off_t, int); off_t __real_ftello(FILE *);
int __real_fclose(FILE *); char *__real_fgets(char *, int, FILE *); int __real_fgetc(FILE *); int __real_ferror(FILE *); int __real_fputs(const char *, FILE *); DIR *__real_opendir(const char *); struct dirent *__real_readdir(DIR *); int __real_closedir(DIR *);
int __real_lstat(const char *, struct stat *); int __real_stat(const char *, struct stat *); FILE *__real_popen(const char *, const char *); int __real_pclose(FILE *); int __real_mkstemp(char *); ssize_t __real_write(int, const void *, size_t); int __real_close(int); int __real_unlink(const char *); int __real_remove(const char *); void __real_exit(int) __attribute__((noreturn));
static FILE *opened(const char *p, FILE *f) { if (on && f) files[f] = p; return f; }
FILE *__wrap_fopen(const char *p, const char *m) {
  if (!on) return __real_fopen(p, m); last_path = p; if (fault("fopen", p, 2)) return 0; return opened(p, __real_fopen(strcmp(p, "/tmp/ohcount.log") ? p : "/dev/null", m)); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
  if (!on || !files.count(f)) return __real_fread(b, s, n, f);
  int m = fault("fread", files[f], 3); if (!m) return __real_fread(b, s, n, f);
  bad_stream[f] = m != 3; if (m == 1) return 0; size_t half = s * n / 2, got = __real_fread(b, 1, half, f); return s ? got / s : 0; } // a partial read
int __wrap_fseek(FILE *f, long o, int w) { if (!on || !files.count(f) || !fault("fseek", files[f], 1)) return __real_fseek(f, o, w); return -1; }
int __wrap_fseeko(FILE *f, off_t o, int w) { if (!on || !files.count(f) || !fault("fseeko", files[f], 1)) return __real_fseeko(f, o, w); return -1; }
long __wrap_ftell(FILE *f) { if (!on || !files.count(f)) return __real_ftell(f); int m = fault("ftell", files[f], 4); long r = __real_ftell(f); return m == 0 ? r : m == 1 ? -1 : m == 2 && r < 1000000 ? r + 7 : m == 3 && r < 1000000 ? r + 5000 : 0x7fffffffffffffffL; } // the file shrinks before it is read
off_t __wrap_ftello(FILE *f) { if (!on || !files.count(f)) return __real_ftello(f); int m = fault("ftello", files[f], 3); off_t r = __real_ftello(f); return m == 0 ? r : m == 1 || r > 1000000 ? -1 : r + 7; }
int __wrap_fclose(FILE *f) { if (!on || !files.count(f)) return __real_fclose(f); string p = files[f]; files.erase(f); bad_stream.erase(f); int r = __real_fclose(f); return fault("fclose", p, 1) ? EOF : r; }
int __wrap_fputs(const char *s, FILE *f) { if (!on || !files.count(f) || !fault("fputs", files[f], 1)) return __real_fputs(s, f); return EOF; }
char *__wrap_fgets(char *b, int n, FILE *f) { if (!on || !(files.count(f) || pipes.count(f))) return __real_fgets(b, n, f); if (!fault("fgets", pipes.count(f) ? "|" : files[f], 1)) return __real_fgets(b, n, f); bad_stream[f] = true; return 0; }
int __wrap_fgetc(FILE *f) { if (!on || !(files.count(f) || pipes.count(f))) return __real_fgetc(f); if (!fault("fgetc", pipes.count(f) ? "|" : files[f], 1)) return __real_fgetc(f); bad_stream[f] = true; return EOF; }
int __wrap_ferror(FILE *f) { auto b = bad_stream.find(f); if (on && b != bad_stream.end()) return b->second; return __real_ferror(f); }
DIR *__wrap_opendir(const char *p) { if (!on) return __real_opendir(p); if (fault("opendir", p, 2, true)) return 0; DIR *d = __real_opendir(p); if (d) dirs[d] = p; return d; }
struct dirent *__wrap_readdir(DIR *d) { if (!on || !dirs.count(d) || !fault("readdir", dirs[d], 1, true)) return __real_readdir(d); return 0; }
struct dirent *__wrap_readdir64(DIR *d) { return __wrap_readdir(d); }
int __wrap_closedir(DIR *d) { if (!on || !dirs.count(d)) return __real_closedir(d); string p = dirs[d]; dirs.erase(d); int r = __real_closedir(d); return fault("closedir", p, 1) ? -1 : r; }
int __wrap_lstat(const char *p, struct stat *s) { if (!on || !fault("lstat", p, 1, true)) return __real_lstat(p, s); memset(s, 0, sizeof *s); s->st_mode = S_IFREG; return -1; }
int __wrap_stat(const char *p, struct stat *s) { if (!on || !fault("stat", p, 1, true)) return __real_stat(p, s); memset(s, 0, sizeof *s); s->st_mode = S_IFREG; return -1; }
FILE *__wrap_popen(const char *c, const char *m) { if (!on) return __real_popen(c, m); if (fault("popen", "|", 1)) return 0; FILE *f = __real_popen(c, m); if (f) pipes.insert(f); return f; }
int __wrap_pclose(FILE *f) { if (!on) return __real_pclose(f); int m = fault("pclose", "|", 4); pipes.erase(f); bad_stream.erase(f); int r = __real_pclose(f); return m == 0 ? r : m == 1 ? -1 : m == 2 ? 127 << 8 : m == 3 ? 2 << 8 : 9; }
int __wrap_mkstemp(char *t) { if (!on) return __real_mkstemp(t); if (fault("mkstemp", "tmp", 1)) return -1; int fd = __real_mkstemp(t); if (fd >= 0) { tmpfds[fd] = t; tmps[t] = false; } return fd; }
int __wrap_mkstemp64(char *t) { return __wrap_mkstemp(t); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (!on || !tmpfds.count(fd)) return __real_write(fd, b, n); int m = fault("write", "tmp", n > 1 ? 3 : 2); if (!m) return __real_write(fd, b, n); if (m == 3) return __real_write(fd, b, n / 2); if (m == 2) return 0; return -1; }
int __wrap_close(int fd) { if (!on || !tmpfds.count(fd)) return __real_close(fd); tmpfds.erase(fd); int r = __real_close(fd); return fault("close", "tmp", 1) ? -1 : r; }
int __wrap_unlink(const char *p) { if (!on) return __real_unlink(p); if (fault("unlink", "tmp", 1)) { tmps[p] = true; return -1; } return __real_unlink(p); }
int __wrap_remove(const char *p) { if (!on) return __real_remove(p); if (fault("remove", "tmp", 1)) { tmps[p] = true; return -1; } return __real_remove(p); }
void __wrap_exit(int s) { if (!on) __real_exit(s); exited = true; longjmp(out_of_run, 1); }
static char answer[100], fake;
magic_t magic_open(int) { if (on && fault("magic_open", last_path, 1)) return 0; cookies++; return (magic_t)&fake; }
void magic_close(magic_t c) { if (c) cookies--; memset(answer, '#', sizeof answer - 1); }
int magic_load(magic_t, const char *) { return on && fault("magic_load", last_path, 1) ? -1 : 0; }
int magic_setflags(magic_t, int) { return 0; } int magic_errno(magic_t) { return EIO; } const char *magic_error(magic_t) { return "no answer"; }
static const char *sniff(const string &t) { strcpy(answer, t.find("sniff me") != string::npos ? "Python script, ASCII text" : "data"); return answer; }
const char *magic_buffer(magic_t, const void *b, size_t n) { return on && fault("magic_buffer", last_path, 1) ? 0 : sniff(string((const char *)b, n)); }
const char *magic_file(magic_t, const char *p) { if (on && fault("magic_file", p, 1)) return 0; FILE *f = __real_fopen(p, "rb"); if (!f) { strcpy(answer, "cannot open `x' (No such file or directory)"); return answer; } string t(1000, 0); t.resize(__real_fread(&t[0], 1, 1000, f)); __real_fclose(f); return sniff(t); }
}
static void begin() { trace.clear(); hit.clear(); hit_dirs.clear(); files.clear(); dirs.clear(); bad_stream.clear(); pipes.clear(); tmpfds.clear(); tmps.clear(); failed_fns.clear(); cookies = 0; exited = false; last_path.clear(); on = true; }
static string finish() { // what must be so after any run
  on = false; string e;
  if (exited) e = "the process ended";
  else if (!files.empty()) e = "the file " + files.begin()->second + " is left open";
  else if (!dirs.empty()) e = "the directory " + dirs.begin()->second + " is left open";
  else if (!pipes.empty() || !tmpfds.empty()) e = "a pipe or temporary file is left open";
  else if (cookies) e = "a sniffer is left open";
  for (auto &t : tmps) { struct stat st; if (__real_lstat(t.first.c_str(), &st) == 0) { if (!t.second && e.empty()) e = "the temporary file is left behind"; __real_unlink(t.first.c_str()); } }
  for (auto &f : files) __real_fclose(f.first); for (auto &d : dirs) __real_closedir(d.first);
  return e;
}
static string plan_str() { string r; for (auto &p : plan) r += std::to_string(p.first) + "." + std::to_string(p.second) + "+"; return r; }
// runs `one` (which runs and judges a scenario under the current plan) under no fault, every fault, and, to a depth, every set of faults
static bool shared = false; // the first faults of the scenario are shared out among the shards
static void explore(int depth, const std::function<void()> &one) {
  one(); vector<Call> t = trace; bool first = plan.empty(); int from = first ? 0 : plan.rbegin()->first + 1;
  if (depth > 0) for (int i = from; i < (int)t.size(); i++) if (!shared || !first || i % H::nshards == H::shard) for (int m = 1; m <= t[i].modes; m++) { plan[i] = m; explore(depth - 1, one); plan.erase(i); }
}
static long n_ = 0; static bool mine() { return n_++ % H::nshards == H::shard; }
static string rcase, rplan; // when replaying
static bool want(const string &scen) { return H::replaying ? scen == rcase : shared || mine(); }
static void drive(const string &scen, int depth, const std::function<void()> &one) {
  if (!want(scen)) return; if (!shared || H::shard == 0) H::stat("scenarios")++;
  auto f = [&] { H::set_case(scen + "|" + plan_str()); H::progress++; H::stat("runs")++; if (!plan.empty()) H::stat("faulty")++; one(); };
  if (H::replaying) { plan.clear(); const char *p = rplan.c_str(); while (*p) { int i = strtol(p, (char **)&p, 10); p++; int m = strtol(p, (char **)&p, 10); p++; plan[i] = m; } f(); return; }
  plan.clear(); explore(depth, f);
}
static string key(const string &e) { string k; for (char c : e.substr(0, 30)) k += isalnum((unsigned char)c) ? c : '-'; return k; }
static void bad(const string &scen, const string &e) { H::viol("fault:" + key(e), scen + "|" + plan_str(), e + " (failed: " + failed_fns + ")"); }
// ---- the files
static size_t core;
static void mkfiles() {
  string c = "code", m = "comment", b = "blank"; vector<Line> none;
  pf("a.c", "c", {{"c", c, "int a;\n"}, {"c", m, "// x\n"}, {"c", b, "\n"}});
  pf("x.h", "cpp", {{"cpp", m, "// y\n"}, {"cpp", c, "class A;\n"}, {"cpp", c, "#include <string>\n"}, {"cpp", b, "\n"}});
  pf("w.html", "html", {{"html", c, "<html>\n"}, {"html", c, "<style type='text/css'>\n"}, {"css", m, "/* c */\n"}, {"css", c, "p {}\n"}, {"html", c, "</style>\n"}, {"html", b, "\n"}, {"html", c, "</html>\n"}});
  pf("script", "ruby", {{"ruby", m, "#!/usr/bin/x\n"}, {"ruby", m, "# -*- mode: ruby -*-\n"}, {"ruby", c, "puts 1"}});
  pf("sniffed", "python", {{"python", m, "# sniff me\n"}, {"python", c, "x = 1\n"}, {"python", b, "\n"}});
  pf("q.pl", "perl", {{"perl", m, "#!/usr/bin/perl\n"}, {"perl", c, "my $x = 1;\n"}});
  pf("l.c", "c", {{"c", m, "// GNU General Public License\n"}, {"c", m, "/* MIT License */\n"}, {"c", c, "int l;\n"}}, {"gpl", "mit"});
  pf("n.xyz", "", {}); pool.back().content = "some text\n";
  pf("e.c", "c", {});
  pf("long.py", "python", {{"python", m, "# " + rep("y", 9000) + "\n"}, {"python", c, "x = " + rep("1 + ", 2000) + "1\n"}});
  pf("m.m", "objective_c", {{"objective_c", m, "// a\n"}, {"objective_c", c, "@interface A\n"}});
  core = pool.size();
  // a file of each extension whose language its content decides; what is reported of it without a fault is taken as the truth
  for (const char *ext : {"ascx", "aspx", "asx", "b", "bas", "bi", "cs", "dat", "def", "f", "f90", "for", "fs", "in", "inc", "mod", "pp", "pro", "r", "rs", "st", "h", "m", "pl"}) pf(string("y.") + ext, "", {}), pool.back().content = "/* c */\nx = 1;\n\n";
}
static void coll(const char *, const char *, int, int, void *);
static void mkderived() { for (size_t i = core; i < pool.size(); i++) { auto &p = pool[i]; SourceFile *s = ohcount_sourcefile_new(p.name.c_str()); ohcount_sourcefile_set_contents(s, p.content.c_str()); const char *l = ohcount_sourcefile_get_language(s); if (l) p.lang = l; std::pair<PF *, const char *> u{&p, p.content.c_str()}; ohcount_sourcefile_parse_with_callback(s, coll, &u); ohcount_sourcefile_free(s); } }
static const PF *P(const string &n) { for (auto &p : pool) if (p.name == n) return &p; abort(); }
// What a file may be taken for when something about it fails: itself, a file without content, one of known language without
// lines, or its content in the language that its name alone gives.
static std::map<const PF *, vector<const PF *>> alts; static PF no_file{"", "", "", {}, {}};
static void coll(const char *l, const char *e, int s, int t, void *u) { auto *x = (std::pair<PF *, const char *> *)u; string k = e; x->first->lines.push_back({l, k[0] == 'l' ? k.substr(1) : k, string(x->second + s, t - s)}); }
static string name_language(const string &n) { SourceFile *s = ohcount_sourcefile_new(n.c_str()); ohcount_sourcefile_set_diskpath(s, "/nonexistent/x"); const char *l = ohcount_sourcefile_get_language(s); string r = l ? l : ""; ohcount_sourcefile_free(s); return r; }
static void mkalts() {
  for (auto &p : pool) {
    auto &v = alts[&p]; v.push_back(&p); string l0 = name_language(p.name);
    auto add = [&](const PF &q, const string &lang) { for (auto *x : v) if (x->lang == q.lang && x->lines.size() == q.lines.size() && x->lic == q.lic && (q.lines.empty() || x->lines[0].lang == q.lines[0].lang)) return; PF *n = new PF(q); v.push_back(n); (void)lang; };
    PF q{p.name, p.content, l0, {}, {}}; add(q, l0); q.lang = p.lang; add(q, l0);
    if (!l0.empty() && l0 != p.lang) { PF r{p.name, p.content, l0, {}, {}}; SourceFile *s = ohcount_sourcefile_new("x"); ohcount_sourcefile_set_contents(s, p.content.c_str()); ohcount_sourcefile_set_language(s, l0.c_str()); std::pair<PF *, const char *> u{&r, p.content.c_str()}; ohcount_sourcefile_parse_with_callback(s, coll, &u); ohcount_sourcefile_free(s); r.lic = p.lic; v.push_back(new PF(r)); }
    for (auto *x : v) { string e; if (!x->lines.empty() && !x->lang.empty()) { SourceFile *s = ohcount_sourcefile_new("x"); ohcount_sourcefile_set_contents(s, p.content.c_str()); ohcount_sourcefile_set_language(s, x->lang.c_str()); ohcount_sourcefile_parse_entities_with_callback(s, cb, &e); ohcount_sourcefile_free(s); } ent_memo[x] = e; }
    H::stat("alternatives") += v.size();
  }
  // a file without lines whose content is white space or of no language has no entities either way
  ent_memo[&no_file] = "";
}
// ---- the program
static std::map<string, Files> tree; // argument -> its files, in the order the walk finds them
static bool under(const string &dir, const string &p) { return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && (p[dir.size()] == '/' || dir.back() == '/'); }
struct Opt { string bad; Files fs; };
static vector<Opt> options(const string &arg, const Files &fs, bool file) {
  vector<Opt> r = {{"", {}}};
  for (auto &f : fs) {
    vector<const PF *> o = {f.second}; bool drop = false;
    if (hit.count(f.first)) { o = alts[f.second]; drop = true; }
    for (auto &d : hit_dirs) if (d == f.first || under(d, f.first)) drop = true;
    vector<Opt> n; for (auto &x : r) { for (auto *p : o) { n.push_back(x); n.back().fs.push_back({f.first, p}); } if (drop) n.push_back(x); }
    r.swap(n); if (r.size() > 3000) r.resize(3000);
  }
  if (hit.count(arg) || hit_dirs.count(arg)) { r.push_back({"Bad argument: " + arg + "\n", {}}); if (!file) r.push_back({"", {{arg, &no_file}}}); }
  return r;
}
static void program(const string &scen, const string &flag, const vector<string> &args) {
  int rc = 0; string out; vector<string> a = {"ohcount", flag}; a.insert(a.end(), args.begin(), args.end()); vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(0);
  static char *buf; static size_t n; fflush(stdout); FILE *save = stdout; stdout = open_memstream(&buf, &n);
  begin(); if (!setjmp(out_of_run)) rc = oh_main(a.size(), v.data()); string e = finish();
  __real_fclose(stdout); stdout = save; out.assign(buf, n); free(buf);
  if (!e.empty()) { bad(scen, e); return; }
  if (plan.empty() && !always) for (auto &h : hit) { bad(scen, "fault without a plan " + h); return; }
  vector<Opt> all = {{"", {}}};
  for (auto &x : args) { vector<Opt> o = options(x, tree[x], tree[x].size() == 1 && tree[x][0].first == x), m; for (auto &p : all) for (auto &q : o) { m.push_back(p); m.back().bad += q.bad; m.back().fs.insert(m.back().fs.end(), q.fs.begin(), q.fs.end()); } all.swap(m); }
  char cmd = flag == "-re" ? 'r' : flag[1]; string why;
  for (auto &o : all) { if (out.compare(0, o.bad.size(), o.bad)) continue; string w = judge(cmd, out.substr(o.bad.size()), o.fs); if (w.empty()) return; if (why.empty()) why = w; }
  bad(scen, "no true report: " + H::esc(out.substr(0, 400)) + ": " + why.substr(0, 200));
}
// ---- the library
typedef std::map<string, std::tuple<long, long, long>> Counts;
static Counts counts(const PF *p) { Counts r; for (auto &l : p->lines) { auto &c = r[l.lang]; if (l.kind == "code") std::get<0>(c)++; else if (l.kind == "comment") std::get<1>(c)++; else std::get<2>(c)++; } return r; }
static void library(const string &scen, const string &ops, const PF *p, bool disk) {
  string e; begin(); SourceFile *s = nullptr;
  if (!setjmp(out_of_run)) {
    s = ohcount_sourcefile_new(disk ? ("elsewhere/" + p->name).c_str() : p->name.c_str()); if (disk) ohcount_sourcefile_set_diskpath(s, p->name.c_str());
    Counts *seen = nullptr; Counts got, got2;
    for (char o : ops) {
      bool h = !hit.empty(); vector<const PF *> A; auto now = [&] { A = hit.empty() ? vector<const PF *>{p} : alts[p]; }; string w;
      switch (o) {
        case 'L': { const char *l = ohcount_sourcefile_get_language(s); string x = l ? l : ""; now(); bool ok = false; for (auto *q : A) ok |= q->lang == x; if (!ok) w = "wrong language " + x; break; }
        case 'C': { char *t = ohcount_sourcefile_get_contents(s); now(); int z = ohcount_sourcefile_get_contents_size(s); if (t && (z != (int)p->content.size() || memcmp(t, p->content.data(), z) || t[z])) w = "wrong contents"; if (!t && hit.empty()) w = "no contents"; if (!t && z > 0 && h) w = ""; break; }
        case 'P': { Counts c; for (auto *i = ohcount_sourcefile_get_parsed_language_list(s)->head; i; i = i->next) c[i->pl->name] = std::make_tuple((long)i->pl->code_count, (long)i->pl->comments_count, (long)i->pl->blanks_count); now(); bool ok = false; for (auto *q : A) ok |= counts(q) == c; if (!ok) w = "wrong lines"; got = c; if (seen && *seen != c) w = "lines and counts differ"; seen = &got; break; }
        case 'N': { Counts c; for (auto *i = ohcount_sourcefile_get_loc_list(s)->head; i; i = i->next) c[i->loc->language] = std::make_tuple((long)i->loc->code, (long)i->loc->comments, (long)i->loc->blanks); now(); bool ok = false; for (auto *q : A) ok |= counts(q) == c; if (!ok) w = "wrong counts"; got2 = c; if (seen && *seen != c) w = "lines and counts differ"; seen = &got2; break; }
        case 'I': { std::set<string> c; for (auto *i = ohcount_sourcefile_get_license_list(s)->head; i; i = i->next) c.insert(i->lic->name); now(); bool ok = false; for (auto *q : A) ok |= std::set<string>(q->lic.begin(), q->lic.end()) == c; if (!ok) w = "wrong licences"; break; }
        case 'W': { string c; ohcount_sourcefile_parse_with_callback(s, cb, &c); now(); bool ok = false; for (auto *q : A) { string x; size_t at = 0; for (auto &l : q->lines) { x += l.lang + "\tl" + l.kind + "\t" + std::to_string(at) + "\t" + std::to_string(at + l.text.size()) + "\n"; at += l.text.size(); } ok |= x == c; } if (!ok) w = "wrong line reports " + H::esc(c.substr(0, 100)); break; }
        case 'E': { string c; ohcount_sourcefile_parse_entities_with_callback(s, cb, &c); now(); bool ok = c.empty() && !hit.empty(); for (auto *q : A) ok |= ent_memo[q] == c; if (!ok) w = "wrong entities"; break; }
      }
      if (!w.empty()) { e = string("at ") + o + " " + w; break; }
    }
    ohcount_sourcefile_free(s);
  }
  string f = finish(); if (!f.empty()) e = f; if (!e.empty()) bad(scen, e);
}
static string deltas(LocDeltaList *d) { std::set<string> r; char b[200]; for (auto *i = d->head; i; i = i->next) { auto *x = i->delta; snprintf(b, 200, "%s %d %d %d %d %d %d;", x->language, x->code_added, x->code_removed, x->comments_added, x->comments_removed, x->blanks_added, x->blanks_removed); r.insert(b); } string s; for (auto &x : r) s += x; return s; }
static SourceFile *mem(const PF *p) { SourceFile *s = ohcount_sourcefile_new("mem"); ohcount_sourcefile_set_contents(s, p->lines.empty() ? "" : p->content.c_str()); if (!p->lang.empty()) ohcount_sourcefile_set_language(s, p->lang.c_str()); else { s->language_detected = 1; s->language = 0; } return s; }
static void diff(const string &scen, const PF *p, const PF *q) {
  static std::map<std::pair<const PF *, const PF *>, string> memo;
  string e, got; begin();
  if (!setjmp(out_of_run)) {
    SourceFile *a = ohcount_sourcefile_new(p->name.c_str()), *b = ohcount_sourcefile_new("other"); ohcount_sourcefile_set_diskpath(b, q->name.c_str()); if (!q->lang.empty()) ohcount_sourcefile_set_language(b, q->lang.c_str());
    LocDeltaList *d = ohcount_sourcefile_diff(a, b); got = deltas(d); ohcount_loc_delta_list_free(d); ohcount_sourcefile_free(a); ohcount_sourcefile_free(b); }
  std::set<string> h = hit; e = finish();
  if (e.empty()) { bool ok = false; vector<const PF *> A = {p}, B = {q}; if (h.count(p->name)) A = alts[p]; if (h.count(q->name)) B = alts[q];
    for (auto *x : A) for (auto *y : B) { auto &m = memo[{x, y}]; if (m.empty()) { SourceFile *a = mem(x), *b = mem(y); LocDeltaList *d = ohcount_sourcefile_diff(a, b); m = "=" + deltas(d); ohcount_loc_delta_list_free(d); ohcount_sourcefile_free(a); ohcount_sourcefile_free(b); } ok |= m == "=" + got; }
    if (!ok) e = "wrong differences " + got; }
  if (!e.empty()) bad(scen, e);
}
static void big(const string &scen, const string &x, const string &y, int wa, int wr) {
  int a = -1, r = -1; begin(); fflush(stdout); int keep = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); __real_close(nul); FILE *es = stderr; stderr = __real_fopen("/dev/null", "w");
  if (!setjmp(out_of_run)) ohcount_calc_diff(x.c_str(), y.c_str(), &a, &r);
  string e = finish(); fflush(stdout); dup2(keep, 1); __real_close(keep); __real_fclose(stderr); stderr = es;
  if (e.empty() && (a != wa || r != wr)) e = "added " + std::to_string(a) + " and removed " + std::to_string(r) + " lines for " + std::to_string(wa) + " and " + std::to_string(wr);
  if (!e.empty()) bad(scen, e);
}
int main(int argc, char **argv) {
  H::init(argc, argv); H::guard(60); H::set_case("setup|"); mkfiles();
  bool th = argc > 3 && !strcmp(argv[3], "thorough"); if (H::replaying) { rcase = H::replay_case; size_t k = rcase.rfind('|'); rplan = rcase.substr(k + 1); rcase.resize(k); th = false; for (int i = 3; i < argc; i++) th |= !strcmp(argv[i], "thorough"); }
  char tmpl[] = "/dev/shm/c13.XXXXXX", tmpl2[] = "/tmp/c13.XXXXXX"; const char *md = mkdtemp(tmpl); if (!md) md = mkdtemp(tmpl2); dir = md; if (chdir(dir.c_str())) return 4;
  for (auto &p : pool) { put(p.name, p.content); tree[p.name] = {{p.name, &p}}; }
  mkdir("T", 0755); mkdir("T/sub", 0755); mkdir("T/.hid", 0755); mkdir("T/void", 0755); put("T/x.h", P("x.h")->content); put("T/sub/w.html", P("w.html")->content); put("T/sub/script", P("script")->content); put("T/l.c", P("l.c")->content); put("T/.hid/a.c", "int a;\n"); (void)!symlink("l.c", "T/link.c");
  if (!H::replaying && !freopen("/dev/null", "w", stderr)) return 4; // the sniffer's messages
  mkderived(); mkalts();
  { SourceFileList *l = ohcount_sourcefile_list_new(); ohcount_sourcefile_list_add_directory(l, "T"); for (auto *i = l->head; i; i = i->next) { string p = i->sf->filepath; tree["T"].push_back({p, P(p.substr(p.rfind('/') + 1))}); } ohcount_sourcefile_list_free(l); if (tree["T"].size() != 4) { printf("the walk finds %zu files\n", tree["T"].size()); } }
  vector<vector<string>> argl = {{"T"}, {"a.c", "x.h"}, {"script", "sniffed"}, {"q.pl", "T"}, {"l.c", "e.c", "w.html"}, {"n.xyz"}, {"long.py", "a.c"}, {"sniffed", "a.c", "sniffed"}, {"m.m", "q.pl"}, {"T", "T"}};
  for (auto &p : pool) { argl.push_back({p.name}); if (&p < &pool[core]) for (size_t q = 0; q < core; q++) argl.push_back({p.name, pool[q].name}); }
  for (string f : {"-a", "-d", "-i", "-l", "-re", "-s"}) { int k = 0; for (auto &a : argl) { string scen = "P," + f; for (auto &x : a) scen += "," + x; shared = th || k < 10; drive(scen, th ? (a.size() > 2 || a[0] == "T" || a.back() == "T" ? 2 : 3) : k++ < 10 ? 2 : 1, [&] { program(scen, f, a); }); shared = false; } }
  vector<string> seqs; string O = "LCPNIWE"; std::function<void(string, int)> rec = [&](string s, int d) { if (!s.empty()) seqs.push_back(s); if (d) for (char o : O) rec(s + o, d - 1); }; rec("", th ? 4 : 3);
  for (auto &p : pool) for (auto &s : seqs) for (int disk = 0; disk < 2; disk++) { if (&p >= &pool[core] && s.size() > (th ? 3 : 2)) continue; if (disk && p.lang.empty()) continue; if (disk && (name_language(p.name).empty())) { /* sniffed by file */ } string scen = "L," + p.name + "," + s + "," + (disk ? "d" : "n"); drive(scen, th ? 3 : s.size() < 3 ? 2 : 1, [&] { library(scen, s, &p, disk); }); }
  for (auto &p : pool) for (auto &q : pool) { if (&p >= &pool[core] && &q != &pool[0]) continue; string scen = "D," + p.name + "," + q.name; drive(scen, th ? 3 : &p < &q ? 2 : 1, [&] { diff(scen, &p, &q); }); }
  // large texts: through temporary files and a helper process, always the exact numbers
  string base, more; for (int i = 0; i < 11000; i++) base += "line " + std::to_string(i) + "\n";
  more = base; more.replace(more.find("line 50\n"), 8, ""); more.replace(more.find("line 7000\n"), 10, "x\ny\n"); more += "z\n";
  struct B { string x, y; int a, r; }; vector<B> bs = {{base, more, 3, 2}, {more, base, 2, 3}, {base, "", 0, 11000}, {"", base, 11000, 0}, {base, base, 0, 0}, {base.substr(0, base.size() - 1), base + "q", 1, 0}};
  for (size_t i = 0; i < bs.size(); i++) { string scen = "B," + std::to_string(i); bool few = i == 2 || i == 3; shared = true; drive(scen, few ? (th ? 1 : 0) : 2, [&] { big(scen, bs[i].x, bs[i].y, bs[i].a, bs[i].r); }); shared = false;
    if (few) for (string fn : {"mkstemp", "write", "close", "popen", "unlink", "pclose", "fgets"}) { string sc = scen + "," + fn; drive(sc, 0, [&] { always = [&](const char *f, const string &) { return fn == f ? 1 : 0; }; big(sc, bs[i].x, bs[i].y, bs[i].a, bs[i].r); always = nullptr; }); } }
  // persistent failures of one call, of a file or directory, of everything; and many failing files with few descriptors
  vector<string> fns = {"fopen", "fread", "fseek", "ftell", "fclose", "opendir", "readdir", "closedir", "lstat", "magic_open", "magic_load", "magic_buffer", "magic_file", ""};
  for (string f : {"-a", "-d", "-i", "-l", "-re", "-s"}) for (auto &fn : fns) for (int m = 1; m <= 4; m++) for (auto &a : argl) { if (m > 1 && fn != "ftell" && !(fn == "fread" && m < 4)) continue;
    string scen = "A," + f + "," + fn + "," + std::to_string(m); for (auto &x : a) scen += "," + x;
    drive(scen, 0, [&] { always = [&](const char *c, const string &p) { return fn.empty() || fn == c ? m : 0; }; program(scen, f, a); always = nullptr; }); }
  for (auto &p : pool) for (auto &s : seqs) for (auto &fn : fns) { if (s.size() > 2 && !th) continue; string scen = "A," + p.name + "," + s + "," + fn; drive(scen, 0, [&] { always = [&](const char *c, const string &) { return fn.empty() || fn == c ? 1 : 0; }; library(scen, s, &p, false); always = nullptr; }); }
  { rlimit rl{40, 40}, old; getrlimit(RLIMIT_NOFILE, &old); rl.rlim_max = old.rlim_max; setrlimit(RLIMIT_NOFILE, &rl);
    for (auto &fn : fns) for (auto &p : pool) { if (fn.empty() || fn == "opendir" || fn == "lstat" || fn == "readdir") continue; string scen = "F," + fn + "," + p.name; drive(scen, 0, [&] {
      string e; begin(); if (!setjmp(out_of_run)) for (int i = 0; i < 100; i++) { always = [&](const char *c, const string &) { return fn == c ? 1 : 0; }; SourceFile *s = ohcount_sourcefile_new(p.name.c_str()); ohcount_sourcefile_get_language(s); ohcount_sourcefile_get_loc_list(s); ohcount_sourcefile_free(s); always = nullptr; }
      if (e.empty()) e = finish(); if (e.empty()) { program(scen, "-i", {"a.c", "T"}); } else bad(scen, e); }); }
    setrlimit(RLIMIT_NOFILE, &old); }
  if (H::shard == 0) { H::sample("P,-i,T|3.1+9.1+ = main on a tree with its 4th and 10th call failing"); H::stat("sequences") = seqs.size(); }
  if (chdir("/") == 0) { string c = "rm -rf '" + dir + "'"; (void)!system(c.c_str()); }
  return H::done();
}
