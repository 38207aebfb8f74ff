// Hash-consed bit-vector expressions (width 1..64) with simplification,
// evaluation under a model and translation to Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { oConst, oSym, oLin, oMul, oUDiv, oSDiv, oURem, oSRem, oAnd, oOr, oXor,
  oShl, oLShr, oAShr, oEq, oUlt, oSlt, oIte, oZExt, oSExt, oExtract, oNot };

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

struct SymSet {
  u64 b[8]; mutable int cnt; mutable u32 first;   // cnt/first: filled on interning
  bool intersects(const SymSet& o) const { for (int i = 0; i < 8; i++) if (b[i] & o.b[i]) return true; return false; }
  bool operator==(const SymSet& o) const { return !memcmp(b, o.b, sizeof b); }
  bool empty() const { for (int i = 0; i < 8; i++) if (b[i]) return false; return true; }
  void add(const SymSet& o) { for (int i = 0; i < 8; i++) b[i] |= o.b[i]; }
};

struct Expr {
  Op op; u8 w; bool ctree; u8 tz; u32 nk;
  u32 id; u32 tsize;
  u64 hash;
  u64 c;         // const value / symbol id / extract low bit / Lin constant
  u64 lo, hi;    // unsigned interval
  const SymSet* syms;
  Expr** k;      // kids
  u64* co;       // Lin coefficients
  u64 ev; u64 epoch;
  Z3_ast z;
};

// A value: concrete (e==nullptr) or symbolic.
struct V { Expr* e; u64 c; };
static inline V C(u64 c) { return V{nullptr, c}; }

struct Model { u64 epoch; std::vector<u64> v; };  // symbol id -> value

extern u64 g_nexpr;
extern Z3_context g_z3;
struct Mask { u64 b[4]; bool has(unsigned v) const { return b[v >> 6] >> (v & 63) & 1; } int count() const { int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(b[i]); return n; } };
// e depends on exactly one 8-bit symbol: its value for each of the 256 values (cached)
const std::vector<u64>& valTable(Expr* e);
Expr* maskExpr(Expr* sym, const Mask& m);
Expr* symExpr(u32 id);
extern std::vector<u8> g_symw;            // widths of symbols
extern std::vector<std::string> g_symname;

Expr* mkConst(u64 c, unsigned w);
Expr* mkSym(unsigned w, const std::string& name);
static inline Expr* E(V v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V VE(Expr* e) { return e->op == oConst ? C(e->c) : V{e, 0}; }

Expr* xAdd(Expr* a, Expr* b);
Expr* xSub(Expr* a, Expr* b);
Expr* xMul(Expr* a, Expr* b);
Expr* xMulC(Expr* a, u64 c);
Expr* xBin(Op op, Expr* a, Expr* b);  // dispatch for Mul..AShr, And/Or/Xor
Expr* xAnd(Expr* a, Expr* b);
Expr* xOr(Expr* a, Expr* b);
Expr* xXor(Expr* a, Expr* b);
Expr* xNot(Expr* a);                 // width 1
Expr* xEq(Expr* a, Expr* b);
Expr* xUlt(Expr* a, Expr* b);
Expr* xSlt(Expr* a, Expr* b);
Expr* xIte(Expr* c, Expr* t, Expr* e);
Expr* xZExt(Expr* a, unsigned w);
Expr* xSExt(Expr* a, unsigned w);
Expr* xExtract(Expr* a, unsigned lo, unsigned w);
Expr* rawExtract8(Expr* a, unsigned lo);  // unsimplified byte of a stored value
Expr* xConcat(Expr* hi, Expr* lo);

u64 evalExpr(Expr* e, const Model& m);
u64 evalOp(Op op, unsigned w, u64 a, u64 b);
Z3_ast toZ3(Expr* e);
Expr* rebuild(Expr* e, Expr** kids);
void exprInit();
std::string exprStr(Expr* e, int depth = 6);
static inline bool isTrue(Expr* e) { return e->op == oConst && e->c == 1; }
static inline bool isFalse(Expr* e) { return e->op == oConst && e->c == 0; }
