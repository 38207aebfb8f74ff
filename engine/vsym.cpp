// vsym: symbolic executor for LLVM IR (bit-precise, Z3 back end).
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <atomic>
#include <map>
#include <set>
#include <memory>
#include <functional>
using namespace llvm;

// =================== options / globals ===================
static std::string optOut = ".", optEntry, optSlots;
static std::map<std::string, i64> optParams;
static u64 optMaxInstr = 20000000;       // per path
static double optTime = 100;             // seconds
static int optMaxErrors = 3;
static int optSample = 40;               // sampled finished paths per process
static int optSplitTab = 32;
static u64 optMaxConcretize = 1100;      // values a forked concretisation may take
static bool optVerbose = false;
static u64 optDepth = 3000;
static double optMemGB = 3.0;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double tStart, tDeadline;

struct Shared {            // shared by all processes of one check run
  std::atomic<int> slots;  // free worker slots
  std::atomic<int> waiting; // engine runs waiting to start
};
struct SharedRun {         // shared by the processes of this engine run
  std::atomic<int> stop;
  std::atomic<int> nstarted, nfinished, nerr; std::atomic<u64> errDeadline;
  std::atomic<u64> paths, instrs, queries, forks;
};
static Shared* shm; static SharedRun* run;

struct Stats {
  u64 pathsOk = 0, pathsAssumeKilled = 0, pathsErr = 0, pathsExit = 0, instrs = 0, forks = 0;
  u64 qDom = 0, qInt = 0, qIntFail = 0, qIntNA = 0; u64 q = 0, qSat = 0, qUnsat = 0, qUnknown = 0, qCache = 0, qTriv = 0; double qTime = 0, qMax = 0;
  u64 asserts = 0, assertsTriv = 0; u64 incomplete = 0; u64 concretized = 0;
  u64 branchSym = 0, branchFree = 0;
} st;
static std::set<std::string> incompleteWhy;
static void markIncomplete(const std::string& w) { st.incomplete++; if (incompleteWhy.size() < 20) incompleteWhy.insert(w); }

// =================== predecoded IR ===================
struct Fn;
enum IOp : u8 { iBin, iAdd, iSub, iCmp, iLoad, iStore, iGep, iBr, iCondBr, iSwitch, iRet, iCall, iSelect, iZExt, iSExt, iTrunc,
  iMove, iAlloca, iPhiMark, iUnreach, iFBin, iFCmp, iFCast, iInsert, iExtract, iUnsup, iFNeg };
typedef int Opd;   // >=0 register, <0 const pool ~x
struct Edge { int target; std::vector<std::pair<int, Opd>> copies; };
struct Scaled { Opd o; unsigned w; i64 scale; };
struct Ins {
  IOp op; u8 sub; u8 w; u8 n;       // w: bit width; n: number of slots
  int dst; Opd a, b, c;
  std::vector<Opd> ops; std::vector<Scaled> idx; i64 off = 0;
  std::vector<u8> ws; std::vector<u32> offs;   // per-slot widths / offsets for aggregates
  std::vector<Edge> edges; std::vector<std::pair<u64, int>> cases;
  Fn* callee = nullptr; Function* cf = nullptr; u64 size = 0; std::string msg;
  u32 line = 0; const char* file = nullptr;
  std::vector<u32> byval;
  u8 srcw = 0;
};
struct State;
typedef bool (*Native)(State& s, Ins& I, V* args);  // returns false if state must re-dispatch/terminated
struct Fn {
  Function* f; std::string name; bool decoded = false; bool isDecl = false;
  std::vector<Ins> code; std::vector<V> pool; int nregs = 0; std::vector<int> argSlots; std::vector<u8> argW;
  Native nat = nullptr; bool natChecked = false; bool executed = false; u64 addr = 0;
};

static LLVMContext* LC; static Module* M; static const DataLayout* DL;
static std::unordered_map<Function*, Fn*> fns;
static std::vector<Fn*> fnList;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, Fn*> fnByAddr;

// =================== memory ===================
enum { bConc = 0, bSym = 1, bUninit = 2 };
struct Obj {
  int rc; u32 id; u64 size; Expr* symSize; u32 cap; u8 kind; u8 fill; bool ro;   // fill: bConc (zero) or bUninit beyond cap
  u8* data; u8* stt; Expr** sym;
};
enum { kGlobal, kHeap, kStack, kFunc, kOpaque };
static Obj* newObj(u32 id, u64 size, u8 kind, u8 fill) {
  Obj* o = new Obj; o->rc = 1; o->id = id; o->size = size; o->symSize = nullptr; o->cap = 0; o->kind = kind; o->fill = fill; o->ro = false;
  o->data = nullptr; o->stt = nullptr; o->sym = nullptr; return o;
}
static void decObj(Obj* o) { if (o && --o->rc == 0) { free(o->data); free(o->stt); free(o->sym); delete o; } }
static void growObj(Obj* o, u64 end) {
  if (end <= o->cap) return;
  u64 nc = std::max<u64>(o->cap * 2, 32); if (nc < end) nc = end; if (nc > o->size) nc = std::max<u64>(o->size, end);
  if (o->size <= 4096) nc = std::max<u64>(o->size, end);
  o->data = (u8*)realloc(o->data, nc); o->stt = (u8*)realloc(o->stt, nc);
  memset(o->data + o->cap, 0, nc - o->cap); memset(o->stt + o->cap, o->fill, nc - o->cap);
  if (o->sym) { o->sym = (Expr**)realloc(o->sym, nc * sizeof(Expr*)); memset(o->sym + o->cap, 0, (nc - o->cap) * sizeof(Expr*)); }
  o->cap = nc;
}
static void needSym(Obj* o) { if (!o->sym) o->sym = (Expr**)calloc(o->cap ? o->cap : 1, sizeof(Expr*)); }
static Obj* cloneObj(Obj* o) {
  Obj* n = new Obj(*o); n->rc = 1;
  if (o->cap) {
    n->data = (u8*)malloc(o->cap); memcpy(n->data, o->data, o->cap);
    n->stt = (u8*)malloc(o->cap); memcpy(n->stt, o->stt, o->cap);
    if (o->sym) { n->sym = (Expr**)malloc(o->cap * sizeof(Expr*)); memcpy(n->sym, o->sym, o->cap * sizeof(Expr*)); }
  }
  return n;
}
static const int PG = 64;
struct Page { int rc; int live; Obj* o[PG]; };
static void decPage(Page* p) { if (p && --p->rc == 0) { for (int i = 0; i < PG; i++) if (p->o[i]) decObj(p->o[i]); delete p; } }

struct Mem {
  std::vector<Page*> pages; u32 next = 16;
  Mem() {}
  Mem(const Mem& m) : pages(m.pages), next(m.next) { for (Page* p : pages) if (p) p->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (Page* p : pages) decPage(p); }
  Obj* get(u64 id) { u64 pi = id / PG; if (pi >= pages.size() || !pages[pi]) return nullptr; return pages[pi]->o[id % PG]; }
  Page* wpage(u64 pi) {
    if (pi >= pages.size()) pages.resize(pi + 1, nullptr);
    Page*& p = pages[pi];
    if (!p) { p = new Page; p->rc = 1; p->live = 0; memset(p->o, 0, sizeof p->o); }
    else if (p->rc > 1) { Page* n = new Page(*p); n->rc = 1; for (int i = 0; i < PG; i++) if (n->o[i]) n->o[i]->rc++; p->rc--; p = n; }
    return p;
  }
  void put(u32 id, Obj* o) { Page* p = wpage(id / PG); if (p->o[id % PG]) decObj(p->o[id % PG]); else p->live++; p->o[id % PG] = o; }
  void del(u32 id) { Page* p = wpage(id / PG); if (p->o[id % PG]) { decObj(p->o[id % PG]); p->live--; } p->o[id % PG] = nullptr;
    if (p->live == 0) { decPage(p); pages[id / PG] = nullptr; } }
  Obj* w(u32 id) { Page* p = wpage(id / PG); Obj*& o = p->o[id % PG]; if (o->rc > 1) { Obj* n = cloneObj(o); o->rc--; o = n; } return o; }
};

// =================== state ===================
struct Frame { Fn* fn; int pc; std::vector<V> r; std::vector<u32> allocas; int ret; u8 retN; };
struct Input { u32 name; u8 w; V v; };
struct State {
  Mem mem; std::vector<Frame> fr;
  std::vector<Expr*> pc;
  std::unordered_map<Expr*, Expr*> sub; std::unordered_map<Expr*, std::pair<u64, u64>> rng; SymSet subSyms, domSyms; std::unordered_map<Expr*, Expr*> memo, memo2; std::unordered_map<u32, Mask> dom;
  std::shared_ptr<Model> wit;
  std::vector<Input> in; std::vector<std::pair<V, u8>> obs; std::vector<std::string> trail;
  u64 instrs = 0; bool allowExit = false; u32 depth = 0; u64 forks = 0; u32 nsym = 0;
  std::map<std::string, u64> cells;
  State() { memset(&subSyms, 0, sizeof subSyms); memset(&domSyms, 0, sizeof domSyms); }
  State(const State& o) : mem(o.mem), fr(o.fr), pc(o.pc), sub(o.sub), rng(o.rng), subSyms(o.subSyms), domSyms(o.domSyms), dom(o.dom), wit(o.wit), in(o.in), obs(o.obs), trail(o.trail),
    instrs(o.instrs), allowExit(o.allowExit), depth(o.depth), forks(o.forks), nsym(o.nsym), cells(o.cells) {}
};
static std::vector<State*> work;
// The k-th symbol of a path is shared between paths (paths never mix in one query).
static std::unordered_map<u64, Expr*> symPool;
static Expr* freshSym(State& s, unsigned w, const std::string& nm) { u64 k = (u64)s.nsym++ << 8 | w; auto it = symPool.find(k); if (it != symPool.end()) return it->second; return symPool[k] = mkSym(w, nm); }
static State* cur;
static std::vector<std::string> names; static std::map<std::string, u32> nameIdx;
static u32 nameId(const std::string& s) { auto it = nameIdx.find(s); if (it != nameIdx.end()) return it->second; names.push_back(s); return nameIdx[s] = names.size() - 1; }
static std::set<std::string> reached; static std::map<std::string,u64> reachCount;
static u64 epochCtr = 1;

// =================== solver ===================
static Z3_solver zs, zi; static u64 zsUses = 0; static int optInt = 200000;
bool toIntFormulas(const std::vector<Expr*>& cs, std::vector<Z3_ast>& out, size_t maxNodes);
static std::unordered_map<u64, std::pair<int, std::vector<std::pair<u32, u64>>>> qcache;
static inline u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }

static Z3_solver mkSolver(unsigned rlimit, bool tactic) {
  Z3_solver s;
  if (tactic) { Z3_tactic t = Z3_mk_tactic(g_z3, "qfbv"); Z3_tactic_inc_ref(g_z3, t); s = Z3_mk_solver_from_tactic(g_z3, t); }
  else s = Z3_mk_simple_solver(g_z3);
  Z3_solver_inc_ref(g_z3, s);
  Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p);
  Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "rlimit"), rlimit);
  Z3_solver_set_params(g_z3, s, p); Z3_params_dec_ref(g_z3, p);
  return s;
}
static void initZ3() {
  Z3_config c = Z3_mk_config(); g_z3 = Z3_mk_context_rc(c); Z3_del_config(c);
  zs = mkSolver(4000000, false);
}
// 1 sat, 0 unsat, -1 unknown. cs is the sliced conjunction.
static int solve(std::vector<Expr*>& cs, std::vector<std::pair<u32, u64>>* model) {
  std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  u64 h = 77; for (Expr* e : cs) h = hmix(h, e->id);
  auto it = qcache.find(h);
  if (it != qcache.end()) { st.qCache++; if (model) *model = it->second.second; return it->second.first; }
  double t0 = now(); st.q++;
  SymSet syms; memset(&syms, 0, sizeof syms); for (Expr* e : cs) syms.add(*e->syms);
  int res = -1; Z3_solver s = nullptr; bool pushed = false;
  if (optInt) {
    std::vector<Z3_ast> fs;
    if (toIntFormulas(cs, fs, 400)) {
      if (!zi) { zi = Z3_mk_simple_solver(g_z3); Z3_solver_inc_ref(g_z3, zi); Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p); Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "rlimit"), (unsigned)optInt); Z3_solver_set_params(g_z3, zi, p); Z3_params_dec_ref(g_z3, p); }
      s = zi; Z3_solver_push(g_z3, s); pushed = true;
      for (Z3_ast f : fs) Z3_solver_assert(g_z3, s, f);
      Z3_lbool r = Z3_solver_check(g_z3, s); res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
      if (res < 0) { Z3_solver_pop(g_z3, s, 1); st.qIntFail++; } else st.qInt++;
    } else st.qIntNA++;
  }
  for (int att = 0; att < 2 && res < 0; att++) {
    if (att == 0) { s = zs; Z3_solver_push(g_z3, s); pushed = true; }
    else { s = mkSolver(40000000, true); pushed = false; }
    for (Expr* e : cs) Z3_solver_assert(g_z3, s, toZ3(e));
    Z3_lbool r = Z3_solver_check(g_z3, s);
    res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res < 0) { if (pushed) Z3_solver_pop(g_z3, s, 1); else Z3_solver_dec_ref(g_z3, s); }
  }
  std::vector<std::pair<u32, u64>> mv;
  if (res == 1) {
    Z3_model m = Z3_solver_get_model(g_z3, s); Z3_model_inc_ref(g_z3, m);
    for (unsigned i = 0; i < Z3_model_get_num_consts(g_z3, m); i++) {
      Z3_func_decl d = Z3_model_get_const_decl(g_z3, m, i);
      Z3_symbol sy = Z3_get_decl_name(g_z3, d); if (Z3_get_symbol_kind(g_z3, sy) != Z3_INT_SYMBOL) continue;
      int id = Z3_get_symbol_int(g_z3, sy); if (id >= 1 << 24) continue;
      Z3_ast v = Z3_model_get_const_interp(g_z3, m, d); u64 x = 0;
      if (v) { if (Z3_get_bool_value(g_z3, v) == Z3_L_TRUE) x = 1; else if (Z3_get_ast_kind(g_z3, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(g_z3, v, &x); }
      mv.push_back({(u32)id, x});
    }
    // symbols the model leaves unconstrained: 0
    std::set<u32> have; for (auto& p : mv) have.insert(p.first);
    for (u32 i = 0; i < 511 && i < g_symw.size(); i++) if ((syms.b[i / 64] >> (i % 64) & 1) && !have.count(i)) mv.push_back({i, 0});
    Z3_model_dec_ref(g_z3, m);
  }
  if (getenv("VSYM_DUMP") && now() - t0 > 0.02) { static int dn = 0; if (dn < 40) { char fn[200]; snprintf(fn, 200, "%s/q%03d.smt2", getenv("VSYM_DUMP"), dn++); FILE* f = fopen(fn, "w"); fprintf(f, "; %.3f res %d\n%s\n(check-sat)\n", now() - t0, res, Z3_solver_to_string(g_z3, s)); fclose(f); } }
  if (res >= 0) { if (pushed) Z3_solver_pop(g_z3, s, 1); else Z3_solver_dec_ref(g_z3, s); }
  double dt = now() - t0; st.qTime += dt; if (dt > st.qMax) st.qMax = dt;
  if (res == 1) st.qSat++; else if (res == 0) st.qUnsat++; else { st.qUnknown++; }
  if (++zsUses % 4000 == 0) { Z3_solver_dec_ref(g_z3, zs); zs = mkSolver(4000000, false); if (zi) { Z3_solver_dec_ref(g_z3, zi); zi = nullptr; } }
  qcache[h] = {res, mv}; if (model) *model = mv;
  return res;
}

// ---- substitution / simplification under the path condition ----
static inline bool unary8(Expr* e) { return e->syms->cnt == 1 && g_symw[e->syms->first] == 8; }
static Expr* domFold(State& s, Expr* e) {   // single-byte expression that is constant over the byte's domain
  if (!unary8(e) || (e->w != 1 && !e->ctree)) return nullptr;
  auto it = s.dom.find(e->syms->first); if (it == s.dom.end()) return nullptr;
  const std::vector<u64>& t = valTable(e); bool have = false; u64 v = 0;
  for (int q = 0; q < 4; q++) { u64 b = it->second.b[q]; while (b) { int i = q * 64 + __builtin_ctzll(b); b &= b - 1; if (!have) { have = true; v = t[i]; } else if (t[i] != v) return nullptr; } }
  return have ? mkConst(v, e->w) : nullptr;
}
// Rewrites under byte domains only (sound for rewriting the path condition itself).
static Expr* simpD(State& s, Expr* e) {
  if (e->op == oConst || !e->syms->intersects(s.domSyms)) return e;
  if (e->op == oSym) { auto d = s.dom.find(e->c); if (d != s.dom.end() && d->second.count() == 1) { for (int i = 0; i < 256; i++) if (d->second.has(i)) return mkConst(i, 8); } return e; }
  auto it = s.memo2.find(e); if (it != s.memo2.end()) return it->second;
  Expr* r = domFold(s, e);
  if (!r) {
    Expr* kb[8]; std::vector<Expr*> kv; Expr** k = kb; if (e->nk > 8) { kv.resize(e->nk); k = kv.data(); }
    bool ch = false; for (u32 i = 0; i < e->nk; i++) { k[i] = simpD(s, e->k[i]); if (k[i] != e->k[i]) ch = true; }
    r = ch ? rebuild(e, k) : e;
  }
  s.memo2[e] = r; return r;
}
static void ivl(State& s, Expr* e, u64& lo, u64& hi, int depth);
static Expr* widenLin(State& s, Expr* z);
static Expr* simp(State& s, Expr* e) {
  if (e->op == oConst || !e->syms->intersects(s.subSyms)) return e;
  auto f = s.sub.find(e); if (f != s.sub.end()) return f->second->op == oConst ? f->second : simp(s, f->second);
  if (e->op == oSym) return e;
  auto it = s.memo.find(e); if (it != s.memo.end()) return it->second;
  Expr* kb[8]; std::vector<Expr*> kv; Expr** k = kb; if (e->nk > 8) { kv.resize(e->nk); k = kv.data(); }
  bool ch = false; Expr* r = domFold(s, e); if (r) { s.memo[e] = r; return r; }
  if (e->op == oIte) {
    Expr* c = simp(s, e->k[0]);
    if (c->op == oConst) r = simp(s, c->c ? e->k[1] : e->k[2]);
    else { k[0] = c; k[1] = simp(s, e->k[1]); k[2] = simp(s, e->k[2]); ch = k[0] != e->k[0] || k[1] != e->k[1] || k[2] != e->k[2]; }
  } else for (u32 i = 0; i < e->nk; i++) { k[i] = simp(s, e->k[i]); if (k[i] != e->k[i]) ch = true; }
  if (!r) r = ch ? rebuild(e, k) : e;
  if (r->op == oUlt || r->op == oEq || r->op == oZExt) {
    if (r->op == oZExt && r->k[0]->op == oLin) r = widenLin(s, r);
    else if (r->op == oZExt) { Expr* x = r->k[0]; if (x->op == oExtract && x->c == 0) { auto g = s.rng.find(x->k[0]); if (g != s.rng.end() && g->second.second <= maskw(x->w)) { Expr* y = x->k[0]; r = y->w <= r->w ? xZExt(y, r->w) : xExtract(y, 0, r->w); } } }
    else if (r->k[1]->op == oConst) {
      Expr* x = r->k[0]; u64 c = r->k[1]->c; auto g = s.rng.find(x);
      if (g == s.rng.end() && x->op == oExtract && x->c == 0) { g = s.rng.find(x->k[0]); if (g != s.rng.end() && g->second.second > maskw(x->w)) g = s.rng.end(); }
      if (g != s.rng.end()) { u64 lo = g->second.first, hi = g->second.second;
        if (r->op == oUlt) { if (hi < c) r = mkConst(1, 1); else if (lo >= c) r = mkConst(0, 1); }
        else { if (c < lo || c > hi) r = mkConst(0, 1); } }
    }
    if (r != e) ch = true;
  }
  if (ch && r != e) { auto g = s.sub.find(r); if (g != s.sub.end()) r = g->second; }
  s.memo[e] = r; return r;
}
static bool occurs(Expr* x, Expr* in) { return in->syms->intersects(*x->syms); }
static void addSub(State& s, Expr* a, Expr* b) {
  if (a->op == oConst) return;
  if (s.sub.count(a)) return;
  s.sub[a] = b; s.subSyms.add(*a->syms); s.memo.clear();
}
static void learnRange(State& s, Expr* x, u64 lo, u64 hi) {
  auto it = s.rng.find(x);
  if (it == s.rng.end()) it = s.rng.emplace(x, std::make_pair(x->lo, x->hi)).first;
  bool ch = false;
  if (lo > it->second.first) { it->second.first = lo; ch = true; }
  if (hi < it->second.second) { it->second.second = hi; ch = true; }
  if (ch) { s.subSyms.add(*x->syms); s.memo.clear(); if (it->second.first == it->second.second) addSub(s, x, mkConst(it->second.first, x->w)); }
}
static bool learnDom(State& s, Expr* c) {
  if (!unary8(c)) return false;
  u32 y = c->syms->first; auto it = s.dom.find(y); if (it == s.dom.end()) { Mask m; memset(&m, 0xff, sizeof m); it = s.dom.emplace(y, m).first; }
  const std::vector<u64>& t = valTable(c); bool ch = false;
  for (int i = 0; i < 256; i++) if (!t[i] && it->second.has(i)) { it->second.b[i >> 6] &= ~(1ULL << (i & 63)); ch = true; }
  if (ch) { s.domSyms.add(*c->syms); s.subSyms.add(*c->syms); s.memo.clear(); s.memo2.clear();
    int lo = 0, hi = 255; while (lo < 255 && !it->second.has(lo)) lo++; while (hi > 0 && !it->second.has(hi)) hi--;
    learnRange(s, symExpr(y), lo, hi); if (lo == hi) addSub(s, symExpr(y), mkConst(lo, 8)); }
  return true;
}
// dynamic interval of e under the byte domains and learned ranges
static void ivl(State& s, Expr* e, u64& lo, u64& hi, int depth) {
  lo = e->lo; hi = e->hi; if (e->op == oConst) return;
  auto g = s.rng.find(e); if (g != s.rng.end()) { lo = std::max(lo, g->second.first); hi = std::min(hi, g->second.second); }
  if (lo >= hi || depth <= 0) return;
  u64 a, b;
  if (e->op == oSym || (unary8(e) && e->ctree)) {
    auto d = s.dom.find(e->syms->first); if (d == s.dom.end()) return;
    const std::vector<u64>& t = valTable(e); u64 mn = ~0ULL, mx = 0;
    if (g_symw[e->syms->first] != 8) return;
    for (int q = 0; q < 4; q++) { u64 m = d->second.b[q]; while (m) { int i = q * 64 + __builtin_ctzll(m); m &= m - 1; mn = std::min(mn, t[i]); mx = std::max(mx, t[i]); } }
    lo = std::max(lo, mn); hi = std::min(hi, mx); return;
  }
  switch (e->op) {
    case oZExt: ivl(s, e->k[0], a, b, depth - 1); lo = std::max(lo, a); hi = std::min(hi, b); break;
    case oExtract: if (e->c == 0) { ivl(s, e->k[0], a, b, depth - 1); if (b <= maskw(e->w)) { lo = std::max(lo, a); hi = std::min(hi, b); } } break;
    case oIte: { u64 a2, b2; ivl(s, e->k[1], a, b, depth - 1); ivl(s, e->k[2], a2, b2, depth - 1); lo = std::max(lo, std::min(a, a2)); hi = std::min(hi, std::max(b, b2)); break; }
    case oLin: {
      i128 L = (i128)sextw(e->c, e->w), H = L;
      for (u32 i = 0; i < e->nk; i++) { ivl(s, e->k[i], a, b, depth - 1); i128 co = sextw(e->co[i], e->w); if (co >= 0) { L += co * (i128)a; H += co * (i128)b; } else { L += co * (i128)b; H += co * (i128)a; } if (H - L > ((i128)1 << 64)) return; }
      i128 M = (i128)1 << e->w; i128 qL = L >= 0 ? L / M : -((-L + M - 1) / M), qH = H >= 0 ? H / M : -((-H + M - 1) / M);
      if (qL == qH) { lo = std::max(lo, (u64)(L - qL * M)); hi = std::min(hi, (u64)(H - qL * M)); }
      break; }
    default: break;
  }
}
// zext(linear sum) that cannot wrap under the path condition: the sum of the extended terms
static Expr* widenLin(State& s, Expr* z) {
  Expr* e = z->k[0]; i128 L = (i128)sextw(e->c, e->w), H = L; u64 a, b;
  for (u32 i = 0; i < e->nk; i++) { ivl(s, e->k[i], a, b, 5); i128 co = sextw(e->co[i], e->w); if (co >= 0) { L += co * (i128)a; H += co * (i128)b; } else { L += co * (i128)b; H += co * (i128)a; } if (H - L > ((i128)1 << 64)) return z; }
  if (L < 0 || H > (i128)maskw(e->w)) return z;
  Expr* r = mkConst((u64)sextw(e->c, e->w) & maskw(z->w), z->w);
  for (u32 i = 0; i < e->nk; i++) r = xAdd(r, xMulC(xZExt(e->k[i], z->w), (u64)sextw(e->co[i], e->w) & maskw(z->w)));
  return r;
}
static int decide(State& s, Expr* c) {   // 1 true, 0 false, -1 not decided
  if (c->op == oConst) return c->c;
  if (c->op == oNot) { int r = decide(s, c->k[0]); return r < 0 ? r : 1 - r; }
  if (c->w == 1 && c->op == oAnd) { int a = decide(s, c->k[0]), b = decide(s, c->k[1]); if (a == 0 || b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
  if (c->w == 1 && c->op == oOr) { int a = decide(s, c->k[0]), b = decide(s, c->k[1]); if (a == 1 || b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
  if (c->op != oUlt && c->op != oEq && c->op != oSlt) return -1;
  u64 al, ah, bl, bh; ivl(s, c->k[0], al, ah, 6); ivl(s, c->k[1], bl, bh, 6);
  if (al > ah || bl > bh) return -1;
  if (c->op == oEq) { if (ah < bl || bh < al) return 0; if (al == ah && bl == bh && al == bl) return 1; return -1; }
  if (c->op == oSlt) { u64 top = 1ULL << (c->k[0]->w - 1); bool na = al >= top, nb = bl >= top; if ((ah >= top) != na || (bh >= top) != nb) return -1; if (na != nb) return na ? 1 : 0; }
  if (ah < bl) return 1; if (al >= bh) return 0; return -1;
}
static void domRestrict(State& s, Expr* x, u64 lo, u64 hi) {
  u32 y = x->syms->first; auto it = s.dom.find(y); if (it == s.dom.end()) { Mask m; memset(&m, 0xff, sizeof m); it = s.dom.emplace(y, m).first; }
  const std::vector<u64>& t = valTable(x); bool ch = false; Mask m = it->second;
  for (int i = 0; i < 256; i++) if (m.has(i) && (t[i] < lo || t[i] > hi)) { m.b[i >> 6] &= ~(1ULL << (i & 63)); ch = true; }
  if (!ch || !m.count()) return;
  it->second = m; s.domSyms.add(*x->syms); s.subSyms.add(*x->syms); s.memo.clear(); s.memo2.clear();
  int l = 0, h = 255; while (l < 255 && !m.has(l)) l++; while (h > 0 && !m.has(h)) h--;
  learnRange(s, symExpr(y), l, h); if (l == h) addSub(s, symExpr(y), mkConst(l, 8));
}
// x is known to lie in [lo,hi]: push the fact down to linear terms and bytes
static void propagate(State& s, Expr* x, u64 lo, u64 hi, int depth) {
  if (x->op == oConst || lo > hi || depth <= 0) return;
  if (x->op == oZExt) { propagate(s, x->k[0], lo, std::min(hi, maskw(x->k[0]->w)), depth - 1); return; }
  if (x->op == oExtract && x->c == 0) { u64 a, b; ivl(s, x->k[0], a, b, 5); if (b <= maskw(x->w)) { propagate(s, x->k[0], lo, hi, depth - 1); } else if (unary8(x)) domRestrict(s, x, lo, hi); return; }
  if (unary8(x)) { domRestrict(s, x, lo, hi); return; }
  if (x->op != oLin) { learnRange(s, x, lo, hi); return; }
  std::vector<std::pair<i128, i128>> tv; i128 L = (i128)sextw(x->c, x->w), H = L; u64 a, b;
  for (u32 i = 0; i < x->nk; i++) { ivl(s, x->k[i], a, b, 5); if (a > b) return; i128 co = sextw(x->co[i], x->w); i128 p = co * (i128)a, q = co * (i128)b; if (p > q) std::swap(p, q); tv.push_back({p, q}); L += p; H += q; if (H - L > ((i128)1 << 64)) return; }
  i128 M = (i128)1 << x->w; i128 qL = L >= 0 ? L / M : -((-L + M - 1) / M), qH = H >= 0 ? H / M : -((-H + M - 1) / M);
  if (qH - qL > 2) return;
  { int nq = 0; i128 qs = 0; for (i128 q = qL; q <= qH; q++) if ((i128)lo + q * M <= H && (i128)hi + q * M >= L) { nq++; qs = q; } if (nq != 1) return; qL = qs; }
  i128 lo2 = (i128)lo + qL * M, hi2 = (i128)hi + qL * M;
  for (u32 i = 0; i < x->nk; i++) {
    i128 co = sextw(x->co[i], x->w); i128 rl = lo2 - (H - tv[i].second), rh = hi2 - (L - tv[i].first);   // bounds of co*t
    if (rl <= tv[i].first && rh >= tv[i].second) continue;
    if (co < 0) { i128 t = -rl; rl = -rh; rh = t; co = -co; }
    if (rh < 0) return;
    i128 tl = rl <= 0 ? 0 : (rl + co - 1) / co, th = rh / co; if (th > (i128)maskw(x->k[i]->w)) th = maskw(x->k[i]->w);
    if (tl > th) return;
    propagate(s, x->k[i], (u64)tl, (u64)th, depth - 1);
  }
}
static void learn(State& s, Expr* c) {
  if (c->op == oConst) return;
  if (c->op == oAnd) { learn(s, c->k[0]); learn(s, c->k[1]); return; }
  learnDom(s, c);
  { Expr* d = c; bool neg = false; if (d->op == oNot) { d = d->k[0]; neg = true; }
    if (d->op == oUlt && d->k[1]->op == oConst) { Expr* x = d->k[0]; u64 v = d->k[1]->c; if (!neg) { if (v) { learnRange(s, x, 0, v - 1); propagate(s, x, 0, v - 1, 5); } } else { learnRange(s, x, v, maskw(x->w)); propagate(s, x, v, maskw(x->w), 5); } }
    else if (d->op == oUlt && d->k[0]->op == oConst) { Expr* x = d->k[1]; u64 v = d->k[0]->c; if (neg) { learnRange(s, x, 0, v); propagate(s, x, 0, v, 5); } else if (v < maskw(x->w)) { learnRange(s, x, v + 1, maskw(x->w)); propagate(s, x, v + 1, maskw(x->w), 5); } }
    if (!neg && d->op == oEq && d->k[1]->op == oConst) propagate(s, d->k[0], d->k[1]->c, d->k[1]->c, 5);
    if (neg && d->op == oEq && d->k[1]->op == oConst) { Expr* x = d->k[0]; u64 v = d->k[1]->c; auto it = s.rng.find(x); u64 lo = it == s.rng.end() ? x->lo : it->second.first, hi = it == s.rng.end() ? x->hi : it->second.second; if (v == lo && lo < hi) learnRange(s, x, lo + 1, hi); else if (v == hi && lo < hi) learnRange(s, x, lo, hi - 1); } }
  if (c->op == oAnd) { learn(s, c->k[0]); learn(s, c->k[1]); return; }
  addSub(s, c, mkConst(1, 1));
  if (c->op == oNot) addSub(s, c->k[0], mkConst(0, 1)); else addSub(s, xNot(c), mkConst(0, 1));
  if (c->op == oEq) {
    Expr *a = c->k[0], *b = c->k[1];
    if (b->op == oConst) addSub(s, a, b);
    else if (a->op == oConst) addSub(s, b, a);
    else if (a->op == oSym && !occurs(a, b)) addSub(s, a, b);
    else if (b->op == oSym && !occurs(b, a)) addSub(s, b, a);
  }
}
static void addConstraint(State& s, Expr* c) {
  if (isTrue(c)) return;
  if (c->op == oAnd) { addConstraint(s, c->k[0]); addConstraint(s, c->k[1]); return; }
  if (!unary8(c)) s.pc.push_back(c);     // single-byte constraints live in the domains
  learn(s, c);
}

static std::string where(State& s);
// Is pc && c satisfiable?  On sat, model (merged with the state's witness) is returned.
static int query(State& s, Expr* c, std::shared_ptr<Model>* out) {
  if (isFalse(c)) { st.qTriv++; return 0; }
  // constraint independence
  c = simpD(s, c); if (isFalse(c)) { st.qTriv++; return 0; }
  { int d = decide(s, c); if (d == 0) { st.qDom++; return 0; } if (d == 1 && evalExpr(c, *s.wit)) { st.qDom++; if (out) *out = s.wit; return 1; } }
  std::vector<Expr*> cs; SymSet syms = *c->syms; std::vector<char> used(s.pc.size(), 0); bool ch = true; bool alone = true;
  for (size_t i = 0; i < s.pc.size(); i++) if (s.pc[i]->syms->intersects(s.domSyms)) { Expr* x = simpD(s, s.pc[i]); if (x != s.pc[i]) { if (unary8(x)) learnDom(s, x); s.pc[i] = x; } }
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i] && s.pc[i]->op != oConst && s.pc[i]->syms->intersects(syms)) { used[i] = 1; syms.add(*s.pc[i]->syms); cs.push_back(s.pc[i]); ch = true; alone = false; } }
  cs.push_back(c);
  if (alone && unary8(c)) {   // only this byte's domain matters
    u32 y = c->syms->first; auto it = s.dom.find(y); const std::vector<u64>& t = valTable(c); int v = -1;
    for (int i = 0; i < 256 && v < 0; i++) if (t[i] && (it == s.dom.end() || it->second.has(i))) v = i;
    st.qDom++;
    if (v < 0) return 0;
    if (out) { auto m = std::make_shared<Model>(); m->epoch = ++epochCtr; m->v = s.wit->v; if (m->v.size() <= y) m->v.resize(y + 1, 0); m->v[y] = v; *out = m; }
    return 1;
  }
  for (u32 y = 0; y < 511 && y < g_symw.size(); y++) if (syms.b[y / 64] >> (y % 64) & 1) { auto it = s.dom.find(y); if (it != s.dom.end() && it->second.count() < 256) { Expr* d = maskExpr(symExpr(y), it->second); if (!isTrue(d)) cs.push_back(d); } }
  { // few bytes with small domains: decide by exhausting the domains
    u32 ys[4]; std::vector<u8> dv[4]; int ny = 0; u64 prod = 1; bool ok = true;
    for (u32 y = 0; y < 511 && y < g_symw.size() && ok; y++) if (syms.b[y / 64] >> (y % 64) & 1) {
      if (ny == 4 || g_symw[y] != 8) { ok = false; break; }
      auto it = s.dom.find(y); if (it == s.dom.end()) { ok = false; break; }
      for (int i = 0; i < 256; i++) if (it->second.has(i)) dv[ny].push_back(i);
      prod *= dv[ny].size(); if (prod > 400) ok = false; ys[ny++] = y; }
    if (ok && ny) {
      st.qDom++; auto m = std::make_shared<Model>(); m->v = s.wit->v; if (m->v.size() < g_symw.size()) m->v.resize(g_symw.size(), 0);
      std::reverse(cs.begin(), cs.end());
      for (u64 x = 0; x < prod; x++) { u64 q = x; for (int i = 0; i < ny; i++) { m->v[ys[i]] = dv[i][q % dv[i].size()]; q /= dv[i].size(); } m->epoch = ++epochCtr; bool sat = true; for (Expr* e : cs) if (!evalExpr(e, *m)) { sat = false; break; } if (sat) { if (out) *out = m; return 1; } }
      return 0; }
  }
  std::vector<std::pair<u32, u64>> mv;
  double tq0 = now();
  if (optVerbose && getenv("VSYM_BIG")) { std::set<Expr*> seen; std::vector<Expr*> stk(cs.begin(), cs.end()); while (!stk.empty()) { Expr* x = stk.back(); stk.pop_back(); if (!seen.insert(x).second) continue; for (u32 i = 0; i < x->nk; i++) stk.push_back(x->k[i]); } if ((int)seen.size() > atoi(getenv("VSYM_BIG"))) { fprintf(stderr, "BIG %zu nodes, cond at %s\n  Q %s\n", seen.size(), where(s).substr(0, 300).c_str(), exprStr(c, 14).substr(0, 1500).c_str()); } }
  int r = solve(cs, &mv);
  if (optVerbose && getenv("VSYM_SLOW") && now() - tq0 > atof(getenv("VSYM_SLOW"))) { fprintf(stderr, "SLOW %.3f r=%d n=%zu at %s\n  Q %s\n", now() - tq0, r, cs.size(), where(s).substr(0, 200).c_str(), exprStr(c, 12).substr(0, 600).c_str()); if (getenv("VSYM_SLOWC")) for (Expr* x : cs) fprintf(stderr, "    C %s\n", exprStr(x, 12).substr(0, 300).c_str()); }
  if (r == 1 && out) {
    auto m = std::make_shared<Model>(); m->epoch = ++epochCtr; m->v = s.wit->v; if (m->v.size() < g_symw.size()) m->v.resize(g_symw.size(), 0);
    for (auto& p : mv) { if (p.first >= m->v.size()) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
    *out = m;
    if (!evalExpr(c, *m)) { fprintf(stderr, "vsym: model does not satisfy query: %s\n", exprStr(c, 8).c_str()); markIncomplete("bad-model"); return -1; }
  }
  return r;
}

// =================== results ===================
static FILE* resF = nullptr; static int errCount = 0, optErrStop = 6;
static std::map<std::string, int> errSeen;
static std::string esc(const std::string& s) { std::string o; for (char ch : s) { unsigned char c = ch; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void openRes() { char b[64]; snprintf(b, sizeof b, "/r.%d.jsonl", (int)getpid()); resF = fopen((optOut + b).c_str(), "w"); if (!resF) { perror("result file"); exit(3); } }
static void writeVals(State& s, FILE* f) {
  fprintf(f, "\"inputs\":[");
  for (size_t i = 0; i < s.in.size(); i++) { u64 v = s.in[i].v.e ? evalExpr(s.in[i].v.e, *s.wit) : s.in[i].v.c; fprintf(f, "%s[\"%s\",%d,%llu]", i ? "," : "", esc(names[s.in[i].name]).c_str(), s.in[i].w, (unsigned long long)v); }
  fprintf(f, "],\"obs\":[");
  for (size_t i = 0; i < s.obs.size(); i++) { u64 v = s.obs[i].first.e ? evalExpr(s.obs[i].first.e, *s.wit) : s.obs[i].first.c; fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v); }
  fprintf(f, "]");
}
struct Kill {};
static std::string where(State& s) {
  std::string r; int n = 0;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 10; i--, n++) {
    Frame& f = s.fr[i]; int p = f.pc < (int)f.fn->code.size() ? f.pc : 0; if (i != (int)s.fr.size() - 1 && p > 0) p--;
    Ins& I = f.fn->code[p]; std::string dn = demangle(f.fn->name); if (dn.size() > 90) dn = dn.substr(0, 90);
    r += dn + ":" + std::to_string(I.line) + (i ? " < " : "");
  }
  return r;
}
static void markIncomplete(const std::string& why);
static void reportError(State& s, const std::string& kind, const std::string& msg) {
  if (kind == "unmodelled") { markIncomplete("unmodelled: " + msg + " at " + where(s)); return; }
  st.pathsErr++;
  std::string w = where(s); std::string key = kind + "|" + msg + "|" + (s.fr.empty() ? "" : s.fr.back().fn->name);
  if (errSeen[key]++ >= optMaxErrors) return;
  fprintf(resF, "{\"t\":\"error\",\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",", esc(kind).c_str(), esc(msg).c_str(), esc(w).c_str());
  writeVals(s, resF); fprintf(resF, "}\n"); fflush(resF);
  if (optVerbose) fprintf(stderr, "ERROR %s: %s\n  at %s\n", kind.c_str(), msg.c_str(), w.c_str());
  errCount++; if (++run->nerr >= optErrStop) run->stop = 1; if (!run->errDeadline) run->errDeadline = (u64)((now() + 15) * 1000);
}
// Report an error that happens when `cond` holds; continue with !cond.
static void killErr(State& s, const std::string& kind, const std::string& msg) { reportError(s, kind, msg); throw Kill(); }

// Require cond; violation -> error.  After return cond is part of the path condition.
static void require(State& s, Expr* cond, const std::string& kind, const std::string& msg) {
  cond = simp(s, cond);
  if (isTrue(cond)) return;
  if (isFalse(cond)) killErr(s, kind, msg);
  Expr* neg = xNot(cond);
  if (!evalExpr(cond, *s.wit)) {
    reportError(s, kind, msg);
    std::shared_ptr<Model> m; int r = query(s, cond, &m);
    if (r == 0) throw Kill(); if (r < 0) { markIncomplete("solver-unknown"); throw Kill(); }
    s.wit = m; addConstraint(s, cond); return;
  }
  std::shared_ptr<Model> m; int r = query(s, neg, &m);
  if (r == 1) { auto old = s.wit; s.wit = m; reportError(s, kind, msg); s.wit = old; }
  else if (r < 0) markIncomplete("solver-unknown");
  if (r != 0) addConstraint(s, cond); else learn(s, cond);
}

static State* forkState(State& s) { st.forks++; s.forks++; State* n = new State(s); return n; }

// Concretise: returns a constant; forks other values (re-executing current instruction).
static u64 concretize(State& s, V v, unsigned w, const char* why) {
  if (!v.e) return v.c;
  Expr* e = simp(s, v.e); if (e->op == oConst) return e->c;
  u64 val = evalExpr(e, *s.wit);
  Expr* eq = xEq(e, mkConst(val, e->w));
  std::shared_ptr<Model> m; int r = query(s, xNot(eq), &m);
  if (r < 0) markIncomplete("solver-unknown");
  if (r == 1) {
    std::string key = std::string("conc:") + s.fr.back().fn->name + ":" + std::to_string(s.fr.back().pc);
    u64 cnt = ++s.cells[key];
    if (cnt > optMaxConcretize) { markIncomplete(std::string("concretize-cap ") + why + " in " + where(s)); }
    else { st.concretized++; State* n = forkState(s); n->wit = m; addConstraint(*n, simp(*n, xNot(eq))); work.push_back(n); }
    s.cells.erase(key);
  }
  addConstraint(s, eq);
  return val;
}
// Branch on a boolean; returns the side for the current state, pushing the other side via callback.
template <class F> static bool branch(State& s, V cv, F other) {
  if (!cv.e) return cv.c & 1;
  Expr* c = simp(s, cv.e); if (c->op == oConst) return c->c;
  st.branchSym++;
  bool side = evalExpr(c, *s.wit);
  Expr* oc = side ? xNot(c) : c;
  std::shared_ptr<Model> m; int r = query(s, oc, &m);
  if (r < 0) markIncomplete("solver-unknown");
  if (r == 1) { State* n = forkState(s); n->wit = m; addConstraint(*n, oc); other(*n, !side); work.push_back(n); addConstraint(s, side ? c : xNot(c)); }
  else if (r == 0) learn(s, side ? c : xNot(c));
  else addConstraint(s, side ? c : xNot(c));
  return side;
}

// =================== object access ===================
static u32 allocObj(State& s, u64 size, u8 kind, u8 fill) { u32 id = s.mem.next++; s.mem.put(id, newObj(id, size, kind, fill)); return id; }
static inline u64 addrOf(u32 id) { return (u64)id << 32; }

// Resolve address expression to a single object; may fork.  Returns object, and offset value.
static Obj* resolve(State& s, V addr, u64 n, bool write, V& off, const char* what) {
  u64 id;
  if (!addr.e) { id = addr.c >> 32; off = C(addr.c & 0xffffffffULL); }
  else {
    Expr* e = simp(s, addr.e);
    if (e->op == oConst) { id = e->c >> 32; off = C(e->c & 0xffffffffULL); }
    else {
      if ((e->lo >> 32) == (e->hi >> 32)) id = e->lo >> 32;
      else {
        u64 v = evalExpr(e, *s.wit); id = v >> 32;
        // is every feasible address inside this object's aperture?
        Expr* same = xEq(xExtract(e, 32, 32), mkConst(id, 32));
        bool side = branch(s, VE(same), [&](State& n, bool) { (void)n; });   // other side re-executes
        (void)side;
      }
      off = VE(xSub(e, mkConst(id << 32, 64)));
    }
  }
  Obj* o = s.mem.get(id);
  if (!o) {
    if (id == 0) killErr(s, "null-deref", std::string(what) + " through null/invalid pointer");
    killErr(s, id < s.mem.next ? "use-after-free" : "wild-pointer", std::string(what) + " of freed or invalid object");
  }
  if (o->kind == kFunc) killErr(s, "wild-pointer", "data access to function");
  if (write && o->ro) killErr(s, "write-readonly", "write to constant object");
  if (!off.e && !o->symSize) { if (off.c + n > o->size) killErr(s, "out-of-bounds", std::string(what) + " outside object of size " + std::to_string(o->size)); }
  else {
    Expr* oe = E(off, 64); Expr* sz = o->symSize ? o->symSize : mkConst(o->size, 64);
    // off <= size-n  (and size >= n)
    Expr* ok;
    if (!o->symSize) { if (n > o->size) killErr(s, "out-of-bounds", std::string(what) + " larger than object"); ok = xNot(xUlt(mkConst(o->size - n, 64), oe)); }
    else ok = xAnd(xNot(xUlt(sz, mkConst(n, 64))), xNot(xUlt(xSub(sz, mkConst(n, 64)), oe)));
    require(s, ok, "out-of-bounds", std::string(what) + " outside object of size " + (o->symSize ? "<symbolic>" : std::to_string(o->size)));
    if (off.e) off = VE(simp(s, off.e));
  }
  return o;
}

static Expr* byteAt(State& s, Obj*& o, u64 i) {  // as Expr; may materialise uninit symbol
  if (i >= o->cap) { if (o->fill == bConc) return mkConst(0, 8); o = s.mem.w(o->id); growObj(o, i + 1); }
  switch (o->stt[i]) {
    case bConc: return mkConst(o->data[i], 8);
    case bSym: { Expr* b = o->sym[i]; return b->op == oExtract ? xExtract(b->k[0], b->c, 8) : b; }
    default: {
      o = s.mem.w(o->id);
      Expr* y = freshSym(s, 8, "uninit"); needSym(o); o->sym[i] = y; o->stt[i] = bSym; return y; }
  }
}
static V loadAt(State& s, Obj* o, u64 off, unsigned w) {
  u64 n = (w + 7) / 8;
  if (off + n <= o->cap) {
    bool conc = true; for (u64 i = 0; i < n; i++) if (o->stt[off + i]) { conc = false; break; }
    if (conc) { u64 v = 0; memcpy(&v, o->data + off, n); return C(v & maskw(w)); }
  } else if (off >= o->cap && o->fill == bConc) return C(0);
  Expr* b[8]; Expr* r = nullptr;
  if (n > 1 && off + n <= o->cap && o->stt[off] == bSym) {  // whole-value fast path
    Expr* b0 = o->sym[off];
    if (b0->op == oExtract && b0->c == 0 && b0->k[0]->w == 8 * n) {
      Expr* src = b0->k[0]; bool same = true;
      for (u64 i = 1; i < n && same; i++) { Expr* bi = o->stt[off + i] == bSym ? o->sym[off + i] : nullptr; if (!(bi && bi->op == oExtract && bi->k[0] == src && bi->c == 8 * i)) same = false; }
      if (same) r = src;
    }
  }
  if (!r) for (u64 i = 0; i < n; i++) b[i] = byteAt(s, o, off + i);
  if (r) ;
  else if (n == 1) r = b[0];
  else {
    { r = xZExt(b[0], 8 * n); for (u64 i = 1; i < n; i++) r = xAdd(r, xMulC(xZExt(b[i], 8 * n), 1ULL << (8 * i))); }
  }
  if (r->w != w) r = xExtract(r, 0, w);
  return VE(r);
}
static void storeByte(Obj* o, u64 i, Expr* e) {
  if (e->op == oConst) { o->data[i] = e->c; o->stt[i] = bConc; }
  else { needSym(o); o->sym[i] = e; o->stt[i] = bSym; }
}
static void storeAt(Obj* o, u64 off, V v, unsigned w) {
  u64 n = (w + 7) / 8; growObj(o, off + n);
  if (!v.e) { u64 c = v.c & maskw(w); memcpy(o->data + off, &c, n); memset(o->stt + off, 0, n); return; }
  Expr* e = v.e; if (e->w != 8 * n) e = xZExt(e, 8 * n);
  for (u64 i = 0; i < n; i++) storeByte(o, off + i, n == 1 ? e : rawExtract8(e, 8 * i));
}

// candidate offsets of a symbolic offset
static void offRange(State& s, Expr* off, Obj* o, u64 n, u64& lo, u64& hi, u64& step) {
  ivl(s, off, lo, hi, 6); hi = std::min<u64>(hi, o->size - n);
  step = 1;
  // stride from linear form
  if (off->op == oLin) { unsigned t = 64; for (u32 i = 0; i < off->nk; i++) t = std::min<unsigned>(t, __builtin_ctzll(off->co[i]) + off->k[i]->tz); if (t > 12) t = 12; step = 1ULL << t; u64 base = off->c & (step - 1); lo = ((lo + step - 1 - base) / step) * step + base; }
  else if (off->tz > 0 && off->tz < 12) { step = 1ULL << off->tz; lo = (lo + step - 1) / step * step; }
}
static Expr* muxTree(Expr* off, std::vector<std::pair<u64, Expr*>>& leaf, size_t a, size_t b) {  // runs [a,b)
  if (b - a == 1) return leaf[a].second;
  size_t m = (a + b) / 2;
  Expr* l = muxTree(off, leaf, a, m); Expr* r = muxTree(off, leaf, m, b);
  return xIte(xUlt(off, mkConst(leaf[m].first, 64)), l, r);
}
// Tightens [lo,hi] (multiples of step from lo) to the feasible range with solver queries.
static void refineRange(State& s, Expr* off, u64& lo, u64& hi, u64 step) {
  u64 v = evalExpr(off, *s.wit); if (v < lo || v > hi) return;
  u64 a = v, b = hi;   // largest feasible in [a,b]
  while (a < b) { u64 mid = a + ((b - a) / step / 2 + ((b - a) / step) % 2) * step; if (mid <= a) mid = a + step; std::shared_ptr<Model> m; int r = query(s, simp(s, xNot(xUlt(off, mkConst(mid, 64)))), &m); if (r == 0) b = mid - step; else if (r == 1) a = std::max(mid, std::min(b, evalExpr(off, *m))); else break; }
  hi = b; a = lo; b = v;
  while (a < b) { u64 mid = a + ((b - a) / step / 2) * step; std::shared_ptr<Model> m; int r = query(s, simp(s, xNot(xUlt(mkConst(mid, 64), off))), &m); if (r == 0) a = mid + step; else if (r == 1) b = std::min(mid, std::max(a, evalExpr(off, *m))); else break; }
  lo = a;
}
// mux whose data are symbolic
static V symLoad(State& s, Obj* o, Expr* off, unsigned w) {
  u64 lo, hi, step; u64 n = (w + 7) / 8; offRange(s, off, o, n, lo, hi, step);
  u64 cnt = hi >= lo ? (hi - lo) / step + 1 : 0;
  if (cnt > 24) { refineRange(s, off, lo, hi, step); cnt = (hi - lo) / step + 1; }
  if (cnt == 0) throw Kill();
  if (cnt > 4096) { u64 v = concretize(s, V{off, 0}, 64, "symbolic load"); return loadAt(s, s.mem.get(o->id), v, w); }
  std::vector<std::pair<u64, Expr*>> leaf;
  for (u64 x = lo; x <= hi; x += step) { Expr* e = E(loadAt(s, o, x, w), w); o = s.mem.get(o->id); if (leaf.empty() || leaf.back().second != e) leaf.push_back({x, e}); }
  if (cnt >= 8 && leaf.size() == cnt && w >= 16) {   // affine table (modulo a power of two)?
    u64 mx = 0; bool ok = true; for (auto& l : leaf) { if (l.second->op != oConst) { ok = false; break; } mx |= l.second->c; }
    if (ok) {
      unsigned k = mx ? 64 - __builtin_clzll(mx) : 1; u64 M = maskw(k), c0 = leaf[0].second->c, dl = (leaf[1].second->c - c0) & M;
      for (u64 i = 0; i < leaf.size() && ok; i++) if (leaf[i].second->c != ((c0 + i * dl) & M)) ok = false;
      if (ok && k > 1) { Expr* idx = xBin(oUDiv, xSub(off, mkConst(lo, 64)), mkConst(step, 64)); Expr* r = xAdd(xMulC(xExtract(idx, 0, k), dl), mkConst(c0, k)); return VE(xZExt(r, w)); }
    }
  }
  return VE(muxTree(off, leaf, 0, leaf.size()));
}
static void symStore(State& s, u32 id, Expr* off, V v, unsigned w) {
  Obj* o = s.mem.w(id); u64 lo, hi, step; u64 n = (w + 7) / 8; offRange(s, off, o, n, lo, hi, step);
  u64 cnt = hi >= lo ? (hi - lo) / step + 1 : 0;
  if (cnt == 0) throw Kill();
  if (n < 4 || step < n || cnt > 4096) { u64 x = concretize(s, V{off, 0}, 64, "symbolic store"); storeAt(s.mem.w(id), x, v, w); return; }
  Expr* e = E(v, w); if (e->w != 8 * n) e = xZExt(e, 8 * n);
  if (step >= n) {
    for (u64 x = lo; x <= hi; x += step) { Expr* c = xEq(off, mkConst(x, 64)); Expr* old = E(loadAt(s, o, x, 8 * n), 8 * n); o = s.mem.w(id); Expr* r = xIte(c, e, old); storeAt(o, x, VE(r), 8 * n); }
  } else {
    // read all old first
    std::vector<Expr*> old; for (u64 x = lo; x < hi + n; x++) { Obj* oo = o; old.push_back(byteAt(s, oo, x)); o = s.mem.w(id); }
    for (u64 x = lo; x < hi + n; x++) {
      Expr* r = old[x - lo];
      for (u64 b = 0; b < n; b++) { if (x < b) continue; u64 st0 = x - b; if (st0 < lo || st0 > hi || (st0 - lo) % step) continue; r = xIte(xEq(off, mkConst(st0, 64)), xExtract(e, 8 * b, 8), r); }
      growObj(o, x + 1); storeByte(o, x, r);
    }
  }
}
static V doLoad(State& s, V addr, unsigned w) {
  V off; Obj* o = resolve(s, addr, (w + 7) / 8, false, off, "load");
  if (!off.e) return loadAt(s, o, off.c, w);
  V v = symLoad(s, o, off.e, w);
  if (v.e && w == 8 && v.e->ctree && unary8(v.e) && optSplitTab) {   // table lookup: split by table value
    const std::vector<u64>& t = valTable(v.e); auto d = s.dom.find(v.e->syms->first); std::set<u64> vals; for (int i = 0; i < 256; i++) if (d == s.dom.end() || d->second.has(i)) vals.insert(t[i]);
    if (vals.size() <= (size_t)optSplitTab) return C(concretize(s, v, 8, "table value"));
  }
  return v;
}
static void doStore(State& s, V addr, V v, unsigned w) {
  if (v.e) v = VE(simp(s, v.e));
  if (v.e && w == 64 && v.e->lo >= (16ULL << 32) && v.e->hi < (0x7fffffffULL << 32)) v = C(concretize(s, v, 64, "stored pointer"));
  V off; Obj* o = resolve(s, addr, (w + 7) / 8, true, off, "store");
  if (!off.e) storeAt(s.mem.w(o->id), off.c, v, w);
  else symStore(s, o->id, off.e, v, w);
}

// bulk helpers: n concrete
struct BV_ { std::vector<u8> d, t; std::vector<Expr*> e; };
static void readBytes(State& s, V addr, u64 n, BV_& out, bool keepUninit, const char* what) {
  out.d.assign(n, 0); out.t.assign(n, 0); out.e.clear(); if (!n) return;
  V off; Obj* o = resolve(s, addr, n, false, off, what);
  if (off.e && n > 1) { u64 lo, hi, step; offRange(s, off.e, o, n, lo, hi, step); if (hi >= lo && (hi - lo) / step < 1000) off = C(concretize(s, off, 64, "bulk read address")); o = s.mem.get(o->id); }
  if (off.e) {
    out.e.assign(n, nullptr);
    for (u64 i = 0; i < n; i++) {
      V v = symLoad(s, s.mem.get(o->id), xAdd(off.e, mkConst(i, 64)), 8); 
      if (v.e) { out.t[i] = bSym; out.e[i] = v.e; } else out.d[i] = v.c; }
    return;
  }
  for (u64 i = 0; i < n; i++) {
    u64 p = off.c + i;
    if (p >= o->cap) { out.t[i] = o->fill; }
    else { out.t[i] = o->stt[p]; out.d[i] = o->data[p]; if (o->stt[p] == bSym) { if (out.e.empty()) out.e.assign(n, nullptr); out.e[i] = o->sym[p]; } }
    if (out.t[i] == bUninit && !keepUninit) { if (out.e.empty()) out.e.assign(n, nullptr); Obj* oo = s.mem.get(o->id); out.e[i] = byteAt(s, oo, p); out.t[i] = bSym; o = s.mem.get(o->id); }
  }
}
static void writeBytes(State& s, V addr, u64 n, BV_& b, const char* what) {
  if (!n) return; V off; Obj* o = resolve(s, addr, n, true, off, what); u32 id = o->id;
  if (off.e) off = C(concretize(s, off, 64, "bulk store address"));
  if (off.e) { for (u64 i = 0; i < n; i++) symStore(s, id, xAdd(off.e, mkConst(i, 64)), b.t[i] == bSym ? V{b.e[i], 0} : C(b.d[i]), 8); return; }
  o = s.mem.w(id); growObj(o, off.c + n);
  memcpy(o->data + off.c, b.d.data(), n); memcpy(o->stt + off.c, b.t.data(), n);
  if (!b.e.empty()) { needSym(o); for (u64 i = 0; i < n; i++) o->sym[off.c + i] = b.e[i]; }
}
static std::string cstr(State& s, V p) {
  std::string r; u64 a = concretize(s, p, 64, "cstr");
  for (;; a++) { V v = doLoad(s, C(a), 8); u64 c = concretize(s, v, 8, "cstr-byte"); if (!c) return r; r += (char)c; if (r.size() > 4096) return r; }
}

#include "exec.inc"
