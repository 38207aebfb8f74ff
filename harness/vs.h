// Harness API.  Under the symbolic executor these are intrinsics; in the
// native replay build they are served from a recorded assignment.
#ifndef VS_H_
#define VS_H_
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t vs_sym(const char* name, uint64_t bits);         // fresh unconstrained value
void vs_bytes(void* p, uint64_t n, const char* name);     // n fresh bytes
void vs_assume(int c);
void vs_assert_(int c, const char* msg);
void vs_fail(const char* msg);
uint64_t vs_choose_(uint64_t n, const char* name);        // explicit n-way split
int64_t vs_param(const char* name, int64_t dflt);         // instance parameter
void vs_reach(const char* label);                         // vacuity witness
void vs_observe(uint64_t v);                              // value compared with native replay
void vs_allow_exit(int on);
uint64_t vs_concretize(uint64_t v);                       // split over all feasible values
void vs_alloc_limit(uint64_t bytes);                      // any larger single allocation is a failure (0: off)
uint64_t vs_heap(void);                                   // number of live heap blocks
void vs_budget(uint64_t instrs);                          // termination budget from here
}
#define VS_STR2(x) #x
#define VS_STR(x) VS_STR2(x)
#define vs_assert(c, msg) vs_assert_((c) ? 1 : 0, msg)
#define vs_choose(n, name) vs_choose_((n), (name))
static inline uint8_t vs_u8(const char* n) { return (uint8_t)vs_sym(n, 8); }
static inline uint32_t vs_u32(const char* n) { return (uint32_t)vs_sym(n, 32); }
static inline uint64_t vs_u64(const char* n) { return vs_sym(n, 64); }
#endif
