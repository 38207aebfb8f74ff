// Native implementation of the harness API: replays one recorded assignment.
#include "vs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>
static std::vector<uint64_t> vals; static size_t pos; static std::map<std::string, int64_t> params; static std::string entry; static int allow_exit;
static uint64_t next() { if (pos >= vals.size()) { fprintf(stderr, "VS-REPLAY-EXHAUSTED\n"); fflush(0); _Exit(91); } return vals[pos++]; }
extern "C" {
uint64_t vs_sym(const char*, uint64_t bits) { uint64_t v = next(); return bits < 64 ? v & ((1ULL << bits) - 1) : v; }
void vs_bytes(void* p, uint64_t n, const char*) { for (uint64_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(); }
void vs_assume(int c) { if (!c) { fprintf(stderr, "VS-ASSUME-FALSE\n"); fflush(0); _Exit(92); } }
void vs_fail(const char* m) { fprintf(stderr, "VS-ASSERT-FAILED: %s\n", m); fflush(0); _Exit(77); }
void vs_assert_(int c, const char* m) { if (!c) vs_fail(m); }
uint64_t vs_choose_(uint64_t, const char*) { return next(); }
int64_t vs_param(const char* n, int64_t d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
void vs_reach(const char*) {}
void vs_observe(uint64_t v) { printf("O %llu\n", (unsigned long long)v); fflush(stdout); }
void vs_allow_exit(int on) { allow_exit = on; }
uint64_t vs_concretize(uint64_t v) { return v; }
void vs_budget(uint64_t) {}
static uint64_t g_limit, g_heap;
void vs_alloc_limit(uint64_t n) { g_limit = n; }
uint64_t vs_heap(void) { return g_heap; }
#define ENTRY(f) void f(void);
#include "entries.inc"
#undef ENTRY
}
void* operator new(size_t n) { if (g_limit && n > g_limit) { g_limit = 0; fprintf(stderr, "VS-ASSERT-FAILED: allocation of %zu bytes exceeds the limit\n", n); fflush(0); _Exit(77); } g_heap++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { g_heap--; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static bool finished;
static void at_exit_hook() { if (!finished && !allow_exit) { fprintf(stderr, "VS-EXIT: process exit requested by library\n"); fflush(0); _Exit(78); } }
// usage: native FILE    (first line: params k=v..., following: one value per line)
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r"); if (!f) return 90;
  static char line[65536];
  if (fgets(line, sizeof line, f)) { for (char* t = strtok(line, " \n"); t; t = strtok(0, " \n")) { char* e = strchr(t, '='); if (!e) continue; std::string k(t, e - t); if (k == "entry") entry = e + 1; else params[k] = strtoll(e + 1, 0, 0); } }
  while (fgets(line, sizeof line, f)) vals.push_back(strtoull(line, 0, 10));
  fclose(f);
  atexit(at_exit_hook);
#define ENTRY(f) if (entry == #f) f(); else
#include "entries.inc"
  return 90;
  finished = true;
  printf("DONE %zu %zu\n", pos, vals.size());
  fflush(stdout);
  _Exit(0);
}
