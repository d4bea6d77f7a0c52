// A stand-in for libmagic: the answer is the environment's choice, and every question is recorded.
#pragma once
#include <string>
#include <magic.h>
namespace MS {
inline const char *answer = "data"; // null: the sniffer fails
inline int asked = 0, opened = 0, closed = 0; inline bool by_file = false; inline std::string what; inline bool disk = false;
inline char fake, store[4096];
inline const char *give() { // like libmagic's, the answer goes away when the cookie is closed
  if (!answer) return nullptr; snprintf(store, sizeof store, "%s", answer); return store; }
}
extern "C" {
magic_t magic_open(int) { MS::opened++; return (magic_t)&MS::fake; }
void magic_close(magic_t) { MS::closed++; memset(MS::store, '#', 64); MS::store[64] = 0; }
int magic_load(magic_t, const char *) { return 0; }
int magic_setflags(magic_t, int) { return 0; }
int magic_errno(magic_t) { return 0; }
int magic_compile(magic_t, const char *) { return 0; }
int magic_check(magic_t, const char *) { return 0; }
const char *magic_error(magic_t) { return "no answer"; }
const char *magic_file(magic_t, const char *p) { MS::asked++; MS::by_file = true; MS::what = p ? p : ""; return MS::give(); }
const char *magic_buffer(magic_t, const void *b, size_t n) { MS::asked++; MS::by_file = false; MS::what.assign((const char *)b, n); return MS::give(); }
}
