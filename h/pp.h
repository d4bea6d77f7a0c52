// Running the real parsers through the library's entry point, and recording what they report.
#pragma once
#include "h.h"
extern "C" {
#include "sourcefile.h"
#include "parser.h"
}
#include "langs.h"
namespace PP {
struct Ev { const char *lang; const char *ent; int s, e; };
static std::vector<Ev> evs;
static char *blk = nullptr; // current contents: exactly length + 1 bytes at the end of an allocation
static SourceFile *sf = nullptr;
static void cb(const char *lang, const char *ent, int s, int e, void *u) { evs.push_back({lang, ent, s, e}); if (evs.size() > 100000 && evs.size() > 2 * (size_t)H::cur.n + 1000) { fprintf(stderr, "ERROR: endless reports\n"); H::write_cur(); _exit(80); } }
static inline void setup() { sf = ohcount_sourcefile_new("x"); sf->language_detected = 1; evs.reserve(4096); H::guard(); }
// Parses s as `lang`. With `exact` the text gets an allocation of its own, so that a sanitizer sees any overrun;
// otherwise a static buffer is used whose surroundings are filled with `a`.
static inline void parse(const char *lang, const char *s, int n, int count, bool exact = false) {
  static char big[1 << 16];
  evs.clear(); if (n > 60000) exact = true;
  char *b;
  if (exact) b = (char *)malloc(n + 1); else b = big + 64;
  memcpy(b, s, n); b[n] = 0;
  if (!exact) b[n + 1] = 'a', b[n + 2] = '\n';
  H::cur.lang = lang; H::cur.b = b; H::cur.n = n; H::progress++;
  sf->contents = b; sf->size = n; sf->language = lang;
  ohcount_parse(sf, count, cb, nullptr);
  sf->contents = nullptr;
  H::cur.lang = nullptr;
  if (exact) free(b);
}
static inline std::string show() {
  std::string r; for (auto &e : evs) { r += std::string(e.lang) + ":" + e.ent + "[" + std::to_string(e.s) + "," + std::to_string(e.e) + ") "; } return r;
}
}
