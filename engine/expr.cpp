#include "expr.h"

u64 g_nexpr = 0;
Z3_context g_z3;
std::vector<u8> g_symw;
std::vector<std::string> g_symname;

static const u32 CTREE_MAX = 700;

// ---------- arena / hash consing ----------
static char* arenaPtr = nullptr; static size_t arenaLeft = 0;
static void* arena(size_t n) {
  n = (n + 7) & ~7ULL;
  if (n > arenaLeft) { size_t sz = std::max<size_t>(n, 1 << 20); arenaPtr = (char*)malloc(sz); arenaLeft = sz; }
  void* p = arenaPtr; arenaPtr += n; arenaLeft -= n; return p;
}
static Expr** tab; static size_t tabCap, tabN;
static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }

struct SSHash { size_t operator()(const SymSet& s) const { u64 h = 1; for (int i = 0; i < 8; i++) h = mix(h, s.b[i]); return h; } };
static std::unordered_set<SymSet, SSHash> ssIntern;
static const SymSet* emptySet;
static const SymSet* internSS(const SymSet& s) {
  auto r = ssIntern.insert(s); const SymSet* p = &*r.first;
  if (r.second) { p->cnt = 0; for (int i = 7; i >= 0; i--) if (p->b[i]) { p->cnt += __builtin_popcountll(p->b[i]); p->first = i * 64 + __builtin_ctzll(p->b[i]); } if (p->b[7] >> 63) p->cnt += 1000; }
  return p; }
struct PPHash { size_t operator()(const std::pair<const void*, const void*>& p) const { return mix((u64)p.first, (u64)p.second); } };
static std::unordered_map<std::pair<const void*, const void*>, const SymSet*, PPHash> ssUnion;
static const SymSet* unionSS(const SymSet* a, const SymSet* b) {
  if (a == b || b == emptySet) return a;
  if (a == emptySet) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair((const void*)a, (const void*)b);
  auto it = ssUnion.find(key);
  if (it != ssUnion.end()) return it->second;
  SymSet s = *a; s.add(*b);
  return ssUnion[key] = internSS(s);
}

void exprInit() {
  SymSet z; memset(&z, 0, sizeof z); emptySet = internSS(z);
  tabCap = 1 << 16; tab = (Expr**)calloc(tabCap, sizeof(Expr*)); tabN = 0;
}

static void growTab() {
  size_t nc = tabCap * 2; Expr** nt = (Expr**)calloc(nc, sizeof(Expr*));
  for (size_t i = 0; i < tabCap; i++) if (tab[i]) { size_t j = tab[i]->hash & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = tab[i]; }
  free(tab); tab = nt; tabCap = nc;
}

static void setInfo(Expr* e) {
  unsigned w = e->w; u64 M = maskw(w);
  e->lo = 0; e->hi = M; e->tz = 0; e->ctree = false; e->tsize = 1;
  Expr** k = e->k;
  switch (e->op) {
    case oConst: e->lo = e->hi = e->c; e->tz = e->c ? __builtin_ctzll(e->c) : 64; e->ctree = true; break;
    case oSym: break;
    case oLin: {
      i128 mn = e->c, mx = e->c; bool ok = true; u8 tz = e->c ? __builtin_ctzll(e->c) : 64;
      // constant interpreted as signed when large
      i64 sc = sextw(e->c, w); mn = mx = sc;
      for (u32 i = 0; i < e->nk; i++) {
        i64 co = sextw(e->co[i], w);
        i128 a = (i128)co * (i128)k[i]->lo, b = (i128)co * (i128)k[i]->hi;
        if (co < 0) std::swap(a, b);
        mn += a; mx += b;
        i128 lim = (i128)1 << 100; if (mn < -lim || mx > lim) ok = false;
        unsigned t = __builtin_ctzll(e->co[i]) + k[i]->tz; if (t > 64) t = 64; if (t < tz) tz = t;
      }
      e->tz = std::min<unsigned>(tz, w);
      if (ok) {
        i128 P = (i128)1 << w;
        i128 q = mn >= 0 ? mn / P : -((-mn + P - 1) / P);
        mn -= q * P; mx -= q * P;
        if (mx < P) { e->lo = (u64)mn; e->hi = (u64)mx; }
      }
      break; }
    case oMul: {
      u128 p = (u128)k[0]->hi * k[1]->hi;
      if (p <= M) { e->hi = (u64)p; e->lo = k[0]->lo * k[1]->lo; }
      unsigned t = k[0]->tz + k[1]->tz; e->tz = std::min<unsigned>(t, w); break; }
    case oUDiv: if (k[1]->lo > 0) { e->hi = k[0]->hi / k[1]->lo; e->lo = k[0]->lo / k[1]->hi; } break;
    case oURem: if (k[1]->lo > 0) { e->hi = std::min(k[0]->hi, k[1]->hi - 1); } break;
    case oSDiv: case oSRem: break;
    case oAnd: e->hi = std::min(k[0]->hi, k[1]->hi); e->tz = std::max(k[0]->tz, k[1]->tz); if (e->tz > w) e->tz = w; break;
    case oOr: case oXor: {
      u64 h = k[0]->hi | k[1]->hi; unsigned b = h ? 64 - __builtin_clzll(h) : 0; e->hi = maskw(b) & M; if (b == 0) e->hi = 0;
      if (e->op == oOr) e->lo = std::max(k[0]->lo, k[1]->lo);
      e->tz = std::min(k[0]->tz, k[1]->tz); break; }
    case oShl: e->tz = k[0]->tz; break;
    case oLShr: e->hi = k[0]->hi >> std::min<u64>(k[1]->lo, 63); break;
    case oAShr: break;
    case oIte:
      e->lo = std::min(k[1]->lo, k[2]->lo); e->hi = std::max(k[1]->hi, k[2]->hi); e->tz = std::min(k[1]->tz, k[2]->tz);
      if (k[1]->ctree && k[2]->ctree) { u64 s = 1 + (u64)k[1]->tsize + k[2]->tsize; if (s < CTREE_MAX) { e->ctree = true; e->tsize = s; } }
      break;
    case oZExt: e->lo = k[0]->lo; e->hi = k[0]->hi; e->tz = k[0]->tz >= k[0]->w ? w : k[0]->tz; break;
    case oSExt: if (k[0]->hi <= maskw(k[0]->w - 1)) { e->lo = k[0]->lo; e->hi = k[0]->hi; } e->tz = k[0]->tz >= k[0]->w ? w : k[0]->tz; break;
    case oExtract: if ((k[0]->hi >> e->c) <= M) { e->hi = k[0]->hi >> e->c; e->lo = k[0]->lo >> e->c; }
      if (k[0]->tz > e->c) e->tz = std::min<unsigned>(k[0]->tz - e->c, w); break;
    default: break;
  }
  const SymSet* s = emptySet;
  if (e->op == oSym) { SymSet x; memset(&x, 0, sizeof x); u64 i = std::min<u64>(e->c, 511); x.b[i / 64] |= 1ULL << (i % 64); s = internSS(x); }
  else for (u32 i = 0; i < e->nk; i++) s = unionSS(s, k[i]->syms);
  e->syms = s;
}

static Expr* intern(Op op, unsigned w, u64 c, u32 nk, Expr* const* k, const u64* co) {
  u64 h = mix(((u64)op << 8) | w, c);
  for (u32 i = 0; i < nk; i++) h = mix(h, (u64)k[i]->id + 1);
  if (co) for (u32 i = 0; i < nk; i++) h = mix(h, co[i]);
  size_t j = h & (tabCap - 1);
  while (tab[j]) {
    Expr* e = tab[j];
    if (e->hash == h && e->op == op && e->w == w && e->c == c && e->nk == nk) {
      bool ok = true;
      for (u32 i = 0; i < nk && ok; i++) if (e->k[i] != k[i] || (co && e->co[i] != co[i])) ok = false;
      if (ok) return e;
    }
    j = (j + 1) & (tabCap - 1);
  }
  Expr* e = (Expr*)arena(sizeof(Expr));
  memset(e, 0, sizeof *e);
  e->op = op; e->w = w; e->c = c; e->nk = nk; e->hash = h; e->id = (u32)g_nexpr++;
  if (nk) { e->k = (Expr**)arena(nk * sizeof(Expr*)); memcpy(e->k, k, nk * sizeof(Expr*)); }
  if (co) { e->co = (u64*)arena(nk * sizeof(u64)); memcpy(e->co, co, nk * sizeof(u64)); }
  setInfo(e);
  tab[j] = e; if (++tabN * 2 > tabCap) growTab();
  return e;
}

Expr* mkConst(u64 c, unsigned w) { return intern(oConst, w, c & maskw(w), 0, nullptr, nullptr); }
static std::vector<Expr*> symTab;
Expr* symExpr(u32 id) { return symTab[id]; }
Expr* mkSym(unsigned w, const std::string& name) {
  u64 id = g_symw.size(); g_symw.push_back(w); g_symname.push_back(name);
  Expr* r = intern(oSym, w, id, 0, nullptr, nullptr); symTab.push_back(r); return r;
}
static Expr* mk1(Op op, unsigned w, Expr* a, u64 c = 0) { Expr* k[1] = {a}; return intern(op, w, c, 1, k, nullptr); }
static Expr* mk2(Op op, unsigned w, Expr* a, Expr* b) { Expr* k[2] = {a, b}; return intern(op, w, 0, 2, k, nullptr); }
static Expr* mk3(Op op, unsigned w, Expr* a, Expr* b, Expr* d) { Expr* k[3] = {a, b, d}; return intern(op, w, 0, 3, k, nullptr); }

u64 evalOp(Op op, unsigned w, u64 a, u64 b) {
  u64 M = maskw(w); a &= M; b &= M;
  switch (op) {
    case oLin: return (a + b) & M;
    case oMul: return (a * b) & M;
    case oUDiv: return b ? a / b : M;
    case oURem: return b ? a % b : a;
    case oSDiv: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return x >= 0 ? M : 1; if (y == -1) return (0 - (u64)x) & M; return (u64)(x / y) & M; }
    case oSRem: { i64 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
    case oAnd: return a & b;
    case oOr: return a | b;
    case oXor: return a ^ b;
    case oShl: return b >= w ? 0 : (a << b) & M;
    case oLShr: return b >= w ? 0 : a >> b;
    case oAShr: { i64 x = sextw(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & M; }
    case oEq: return a == b;
    case oUlt: return a < b;
    case oSlt: return sextw(a, w) < sextw(b, w);
    default: abort();
  }
}

// ---------- const-tree mapping ----------
template <class F> static Expr* mapTree(Expr* t, F f, std::unordered_map<Expr*, Expr*>& memo) {
  if (t->op == oConst) return f(t->c);
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  Expr* a = mapTree(t->k[1], f, memo);
  Expr* b = mapTree(t->k[2], f, memo);
  Expr* r = xIte(t->k[0], a, b);
  memo[t] = r; return r;
}
template <class F> static Expr* mapTree(Expr* t, F f) { std::unordered_map<Expr*, Expr*> m; return mapTree(t, f, m); }
static inline bool isTree(Expr* e) { return e->ctree && e->op == oIte; }

// ---------- linear sums ----------
struct LinAcc {
  unsigned w; u64 c = 0;
  std::vector<std::pair<Expr*, u64>> t;
  void add(Expr* e, u64 m) {
    m &= maskw(w); if (!m) return;
    if (e->op == oConst) { c += e->c * m; return; }
    if (e->op == oLin) { c += e->c * m; for (u32 i = 0; i < e->nk; i++) addT(e->k[i], e->co[i] * m); return; }
    addT(e, m);
  }
  void addT(Expr* e, u64 m) { t.push_back({e, m & maskw(w)}); }
  Expr* build() {
    u64 M = maskw(w); c &= M;
    if (t.size() > 1) {
      std::sort(t.begin(), t.end(), [](const std::pair<Expr*, u64>& a, const std::pair<Expr*, u64>& b) { return a.first->id < b.first->id; });
      size_t o = 0;
      for (size_t i = 0; i < t.size();) {
        Expr* e = t[i].first; u64 m = 0;
        while (i < t.size() && t[i].first == e) m += t[i++].second;
        m &= M; if (m) t[o++] = {e, m};
      }
      t.resize(o);
    } else if (t.size() == 1 && !(t[0].second & M)) t.clear();
    if (t.empty()) return mkConst(c, w);
    if (t.size() == 1) {
      if (t[0].second == 1 && c == 0) return t[0].first;
      if (isTree(t[0].first)) { u64 m = t[0].second, cc = c; unsigned ww = w; return mapTree(t[0].first, [=](u64 x) { return mkConst(x * m + cc, ww); }); }
    }
    // merge const trees if few
    if (t.size() >= 2) {
      size_t nt = 0, a = 0, b = 0;
      for (size_t i = 0; i < t.size(); i++) if (isTree(t[i].first)) { if (nt == 0) a = i; else b = i; nt++; }
      if (nt >= 2 && (u64)t[a].first->tsize * t[b].first->tsize <= 64) {
        Expr* x = t[a].first; Expr* y = t[b].first; u64 mx = t[a].second, my = t[b].second; unsigned ww = w;
        Expr* z = mapTree(x, [=](u64 p) { return mapTree(y, [=](u64 q) { return mkConst(p * mx + q * my, ww); }); });
        LinAcc l; l.w = w; l.c = c;
        for (size_t i = 0; i < t.size(); i++) if (i != a && i != b) l.add(t[i].first, t[i].second);
        l.add(z, 1); return l.build();
      }
    }
    std::vector<Expr*> ks; std::vector<u64> cs;
    for (auto& p : t) { ks.push_back(p.first); cs.push_back(p.second); }
    if (t.size() <= 16)
    // reassemble  ZExt(Extract(x,0,m)) + 2^m*ZExt(Extract(x,m,..))  ->  x-part
    if (t.size() >= 2) {
      for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < t.size(); j++) {
        if (i == j) continue;
        Expr* lowp = t[i].first; Expr* hip = t[j].first;
        Expr* le = lowp->op == oZExt ? lowp->k[0] : lowp; Expr* he = hip->op == oZExt ? hip->k[0] : hip;
        if (le->op != oExtract || he->op != oExtract || le->k[0] != he->k[0]) continue;
        if (he->c != le->c + le->w) continue;
        if (lowp->op != oZExt) continue;
        if (t[j].second != ((t[i].second << le->w) & M) ) continue;
        if (hip->op != oZExt && hip->w == w && le->w + he->w < w) continue;  // truncated weird
        unsigned nw = le->w + he->w;
        Expr* comb = xExtract(le->k[0], le->c, std::min<unsigned>(nw, 64));
        if (nw < w) comb = xZExt(comb, w); else if (nw > w) comb = xExtract(comb, 0, w);
        LinAcc l; l.w = w; l.c = c;
        for (size_t q = 0; q < t.size(); q++) if (q != i && q != j) l.add(t[q].first, t[q].second);
        l.add(comb, t[i].second);
        return l.build();
      }
    }
    return intern(oLin, w, c, ks.size(), ks.data(), cs.data());
  }
};

Expr* xAdd(Expr* a, Expr* b) { if (a->w == 1) return xXor(a, b); LinAcc l; l.w = a->w; l.add(a, 1); l.add(b, 1); return l.build(); }
Expr* xSub(Expr* a, Expr* b) { if (a->w == 1) return xXor(a, b); if (a == b) return mkConst(0, a->w); LinAcc l; l.w = a->w; l.add(a, 1); l.add(b, ~0ULL); return l.build(); }
Expr* xMulC(Expr* a, u64 c) { if (a->w == 1) return (c & 1) ? a : mkConst(0, 1); LinAcc l; l.w = a->w; l.add(a, c); return l.build(); }
Expr* xMul(Expr* a, Expr* b) {
  if (a->op == oConst) return xMulC(b, a->c);
  if (b->op == oConst) return xMulC(a, b->c);
  if (a->w == 1) return xAnd(a, b);
  if (a->id > b->id) std::swap(a, b);
  return mk2(oMul, a->w, a, b);
}

// ---------- booleans ----------
Expr* xNot(Expr* a) {
  if (a->op == oConst) return mkConst(!a->c, 1);
  if (a->op == oNot) return a->k[0];
  return mk1(oNot, 1, a);
}

static bool contigMask(u64 m, unsigned& lo, unsigned& n) {
  if (!m) return false; lo = __builtin_ctzll(m); u64 x = m >> lo; if (x & (x + 1)) return false; n = 64 - __builtin_clzll(x); return true;
}

Expr* xAnd(Expr* a, Expr* b) {
  unsigned w = a->w; u64 M = maskw(w);
  if (a == b) return a;
  if (a->op == oConst) std::swap(a, b);
  if (b->op == oConst) {
    if (a->op == oConst) return mkConst(a->c & b->c, w);
    if (b->c == 0) return b;
    if (b->c == M) return a;
    if (isTree(a)) { u64 c = b->c; return mapTree(a, [=](u64 x) { return mkConst(x & c, w); }); }
    u64 m = b->c;
    // drop mask bits known zero by interval / trailing zeros
    unsigned hb = a->hi ? 64 - __builtin_clzll(a->hi) : 0;
    u64 possible = maskw(hb); if (hb == 0) possible = 0; if (a->tz < 64) possible &= ~((a->tz ? maskw(a->tz) : 0)); 
    if ((possible & ~m) == 0) return a;
    m &= possible; if (!m) return mkConst(0, w);
    unsigned lo, n;
    if (contigMask(m, lo, n)) {
      Expr* x = xZExt(xExtract(a, lo, n), w);
      return lo ? xMulC(x, 1ULL << lo) : x;
    }
    if (a->op == oAnd && a->k[1]->op == oConst) return xAnd(a->k[0], mkConst(a->k[1]->c & m, w));
    return mk2(oAnd, w, a, mkConst(m, w));
  }
  if (w == 1) {
    if (a->op == oNot && a->k[0] == b) return mkConst(0, 1);
    if (b->op == oNot && b->k[0] == a) return mkConst(0, 1);
    if (a->op == oAnd && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == oAnd && (b->k[0] == a || b->k[1] == a)) return b;
    // same-variable ranges
    auto rng = [](Expr* e, Expr*& x, u64& lo, u64& hi) {
      if (e->op == oUlt && e->k[1]->op == oConst) { x = e->k[0]; lo = 0; hi = e->k[1]->c - 1; return true; }
      if (e->op == oUlt && e->k[0]->op == oConst) { x = e->k[1]; lo = e->k[0]->c + 1; hi = maskw(x->w); return true; }
      if (e->op == oNot && e->k[0]->op == oUlt) { Expr* f = e->k[0];
        if (f->k[1]->op == oConst) { x = f->k[0]; lo = f->k[1]->c; hi = maskw(x->w); return true; }
        if (f->k[0]->op == oConst) { x = f->k[1]; lo = 0; hi = f->k[0]->c; return true; } }
      if (e->op == oEq && e->k[1]->op == oConst) { x = e->k[0]; lo = hi = e->k[1]->c; return true; }
      return false; };
    Expr *xa, *xb; u64 la, ha, lb, hb;
    if (rng(a, xa, la, ha) && rng(b, xb, lb, hb) && xa == xb) {
      if (ha < lb || hb < la) return mkConst(0, 1);
      if (la >= lb && ha <= hb) return a;
      if (lb >= la && hb <= ha) return b;
    }
  } else {
    // disjoint
    unsigned ha = a->hi ? 64 - __builtin_clzll(a->hi) : 0, hb = b->hi ? 64 - __builtin_clzll(b->hi) : 0;
    if (ha <= b->tz || hb <= a->tz) return mkConst(0, w);
  }
  if (isTree(a) && isTree(b) && (u64)a->tsize * b->tsize <= 64) return mapTree(a, [=](u64 p) { return xAnd(b, mkConst(p, w)); });
  if (a->id > b->id) std::swap(a, b);
  return mk2(oAnd, w, a, b);
}

Expr* xOr(Expr* a, Expr* b) {
  unsigned w = a->w; u64 M = maskw(w);
  if (a == b) return a;
  if (a->op == oConst) std::swap(a, b);
  if (b->op == oConst) {
    if (a->op == oConst) return mkConst(a->c | b->c, w);
    if (b->c == 0) return a;
    if (b->c == M) return b;
    if (isTree(a)) { u64 c = b->c; return mapTree(a, [=](u64 x) { return mkConst(x | c, w); }); }
  }
  if (w == 1) return xNot(xAnd(xNot(a), xNot(b)));
  unsigned ha = a->hi ? 64 - __builtin_clzll(a->hi) : 0, hb = b->hi ? 64 - __builtin_clzll(b->hi) : 0;
  if (ha <= b->tz || hb <= a->tz) return xAdd(a, b);
  if (b->op == oConst) { // (a & ~c) + c
    return xAdd(xAnd(a, mkConst(~b->c, w)), b);
  }
  if (isTree(a) && isTree(b) && (u64)a->tsize * b->tsize <= 64) return mapTree(a, [=](u64 p) { return xOr(b, mkConst(p, w)); });
  if (a->id > b->id) std::swap(a, b);
  return mk2(oOr, w, a, b);
}

Expr* xXor(Expr* a, Expr* b) {
  unsigned w = a->w; u64 M = maskw(w);
  if (a == b) return mkConst(0, w);
  if (a->op == oConst) std::swap(a, b);
  if (b->op == oConst) {
    if (a->op == oConst) return mkConst(a->c ^ b->c, w);
    if (b->c == 0) return a;
    if (w == 1) return xNot(a);
    if (b->c == M) { LinAcc l; l.w = w; l.add(a, ~0ULL); l.c -= 1; return l.build(); }
    if (isTree(a)) { u64 c = b->c; return mapTree(a, [=](u64 x) { return mkConst(x ^ c, w); }); }
    if (b->c == (1ULL << (w - 1))) return xAdd(a, b);
  }
  if (w == 1) {
    bool neg = false;
    if (a->op == oNot) { a = a->k[0]; neg = !neg; }
    if (b->op == oNot) { b = b->k[0]; neg = !neg; }
    if (a == b) return mkConst(neg, 1);
    if (a->id > b->id) std::swap(a, b);
    Expr* r = mk2(oXor, 1, a, b);
    return neg ? xNot(r) : r;
  }
  unsigned ha = a->hi ? 64 - __builtin_clzll(a->hi) : 0, hb = b->hi ? 64 - __builtin_clzll(b->hi) : 0;
  if (ha <= b->tz || hb <= a->tz) return xAdd(a, b);
  if (a->id > b->id) std::swap(a, b);
  return mk2(oXor, w, a, b);
}

Expr* xIte(Expr* c, Expr* t, Expr* e) {
  if (c->op == oConst) return c->c ? t : e;
  if (t == e) return t;
  if (c->op == oNot) return xIte(c->k[0], e, t);
  if (t->op == oIte && t->k[0] == c) return xIte(c, t->k[1], e);
  if (e->op == oIte && e->k[0] == c) return xIte(c, t, e->k[2]);
  if (t->w == 1) {
    if (t->op == oConst) return t->c ? xOr(c, e) : xAnd(xNot(c), e);
    if (e->op == oConst) return e->c ? xOr(xNot(c), t) : xAnd(c, t);
    if (t == xNot(e)) return xXor(xNot(c), t);  // c ? t : !t  ==  c == t
  }
  // Eq(x,const) ? const : x  -> x
  if (c->op == oEq && c->k[1]->op == oConst && t->op == oConst && e == c->k[0] && t->c == c->k[1]->c) return e;
  // merge nested with shared branch
  if (e->op == oIte && e->k[1] == t) return xIte(xOr(c, e->k[0]), t, e->k[2]);
  if (e->op == oIte && e->k[2] == t) return xIte(xOr(c, xNot(e->k[0])), t, e->k[1]);
  return mk3(oIte, t->w, c, t, e);
}

// ---------- extension / extraction ----------
Expr* xZExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == oConst) return mkConst(a->c, w);
  if (a->op == oZExt) return xZExt(a->k[0], w);
  if (isTree(a)) return mapTree(a, [=](u64 x) { return mkConst(x, w); });
  if (a->op == oLin) {
    // push inside when the sum cannot wrap
    unsigned aw = a->w; bool ok = true; i128 mn = sextw(a->c, aw), mx = mn;
    if (a->lo == 0 && a->hi == maskw(aw)) ok = false;  // unknown
    for (u32 i = 0; i < a->nk && ok; i++) {
      i64 co = sextw(a->co[i], aw);
      i128 x = (i128)co * (i128)a->k[i]->lo, y = (i128)co * (i128)a->k[i]->hi; if (co < 0) std::swap(x, y);
      mn += x; mx += y;
    }
    if (ok && mn >= 0 && mx <= (i128)maskw(aw)) {
      LinAcc l; l.w = w; l.c = (u64)sextw(a->c, aw);
      for (u32 i = 0; i < a->nk; i++) l.add(xZExt(a->k[i], w), (u64)sextw(a->co[i], aw));
      return l.build();
    }
  }
  return mk1(oZExt, w, a);
}
Expr* xSExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == oConst) return mkConst((u64)sextw(a->c, a->w), w);
  if (a->hi <= maskw(a->w - 1) && a->w > 1) return xZExt(a, w);
  if (a->op == oSExt) return xSExt(a->k[0], w);
  if (a->op == oZExt) return xZExt(a, w);
  unsigned aw = a->w;
  if (isTree(a)) return mapTree(a, [=](u64 x) { return mkConst((u64)sextw(x, aw), w); });
  if (aw == 1) return xIte(a, mkConst(~0ULL, w), mkConst(0, w));
  if (a->op == oLin) {
    // every term non-negative & total within signed range
    i128 mn = sextw(a->c, aw), mx = mn;
    for (u32 i = 0; i < a->nk; i++) {
      i64 co = sextw(a->co[i], aw);
      i128 x = (i128)co * (i128)a->k[i]->lo, y = (i128)co * (i128)a->k[i]->hi; if (co < 0) std::swap(x, y);
      mn += x; mx += y;
    }
    i128 half = (i128)1 << (aw - 1);
    if (mn >= -half && mx < half) {
      LinAcc l; l.w = w; l.c = (u64)sextw(a->c, aw);
      for (u32 i = 0; i < a->nk; i++) l.add(xZExt(a->k[i], w), (u64)sextw(a->co[i], aw));
      return l.build();
    }
  }
  return mk1(oSExt, w, a);
}
Expr* xExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->op == oConst) return mkConst(a->c >> lo, w);
  if (a->op == oExtract) return xExtract(a->k[0], a->c + lo, w);
  if (isTree(a)) return mapTree(a, [=](u64 x) { return mkConst(x >> lo, w); });
  if (lo < 64 && (a->hi >> lo) == 0) return mkConst(0, w);
  if (lo + w <= a->tz) return mkConst(0, w);
  if (a->op == oZExt) {
    unsigned kw = a->k[0]->w;
    if (lo >= kw) return mkConst(0, w);
    if (lo + w <= kw) return xExtract(a->k[0], lo, w);
    return xZExt(xExtract(a->k[0], lo, kw - lo), w);
  }
  if (a->op == oSExt) {
    unsigned kw = a->k[0]->w;
    if (lo + w <= kw) return xExtract(a->k[0], lo, w);
    if (lo < kw) return xSExt(xExtract(a->k[0], lo, kw - lo), w);
  }
  if (a->op == oLin) {
    if (lo == 0 && w > 1) {
      LinAcc l; l.w = w; l.c = a->c;
      for (u32 i = 0; i < a->nk; i++) if (a->co[i] & maskw(w)) l.add(xExtract(a->k[i], 0, w), a->co[i]);
      return l.build();
    }
    if (lo == 0 && w == 1) {
      Expr* r = mkConst(a->c & 1, 1);
      for (u32 i = 0; i < a->nk; i++) if (a->co[i] & 1) r = xXor(r, xExtract(a->k[i], 0, 1));
      return r;
    }
    // split into low part (fits below bit lo, non-negative) and high part (divisible by 2^lo)
    u64 lowmax = a->c & maskw(lo); bool ok = true; LinAcc hi; hi.w = a->w - lo; u64 hc = a->c >> lo; bool anyHi = false;
    LinAcc lowp; lowp.w = a->w; bool anyLow = false;
    if (a->w - lo >= 2) {
      for (u32 i = 0; i < a->nk && ok; i++) {
        u64 co = a->co[i];
        if ((co & maskw(lo)) == 0) { hi.add(xExtract(a->k[i], 0, a->w - lo), co >> lo); anyHi = true; }
        else {
          u128 m = (u128)co * a->k[i]->hi;
          if (m + lowmax > maskw(lo)) ok = false; else lowmax += (u64)m;
          anyLow = true;
        }
      }
      if (ok) { hi.c = hc; Expr* h = hi.build(); return xExtract(h, 0, w); }
    }
    (void)anyHi; (void)anyLow; (void)lowp;
  }
  if ((a->op == oAnd || a->op == oOr || a->op == oXor) && a->w > 1) {
    Expr* x = xExtract(a->k[0], lo, w); Expr* y = xExtract(a->k[1], lo, w);
    return a->op == oAnd ? xAnd(x, y) : a->op == oOr ? xOr(x, y) : xXor(x, y);
  }
  if (a->op == oIte && (a->k[1]->op == oConst || a->k[2]->op == oConst || (a->k[1]->op != oIte && a->k[2]->op != oIte)))
    return xIte(a->k[0], xExtract(a->k[1], lo, w), xExtract(a->k[2], lo, w));
  if (w == 1 && lo == a->w - 1u && a->w > 1) return xNot(xUlt(a, mkConst(1ULL << lo, a->w)));
  return mk1(oExtract, w, a, lo);
}
Expr* rawExtract8(Expr* a, unsigned lo) { return a->op == oConst ? mkConst(a->c >> lo, 8) : mk1(oExtract, 8, a, lo); }
Expr* xConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  Expr* h = xZExt(hi, w); Expr* l = xZExt(lo, w);
  return xAdd(xMulC(h, 1ULL << lo->w), l);
}

// ---------- comparisons ----------
static u64 inv64(u64 a) { u64 x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }

Expr* xEq(Expr* a, Expr* b) {
  unsigned w = a->w; u64 M = maskw(w);
  if (a == b) return mkConst(1, 1);
  if (w == 1) return xNot(xXor(a, b));
  if (a->op == oConst) std::swap(a, b);
  if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
  if (b->op == oConst) {
    u64 c = b->c;
    if (a->op == oConst) return mkConst(a->c == c, 1);
    if (a->tz < 64 && a->tz > 0 && (c & maskw(a->tz))) return mkConst(0, 1);
    if (isTree(a)) return mapTree(a, [=](u64 x) { return mkConst(x == c, 1); });
    switch (a->op) {
      case oZExt: return (c > maskw(a->k[0]->w)) ? mkConst(0, 1) : xEq(a->k[0], mkConst(c, a->k[0]->w));
      case oSExt: { u64 t = c & maskw(a->k[0]->w); if (((u64)sextw(t, a->k[0]->w) & M) != c) return mkConst(0, 1); return xEq(a->k[0], mkConst(t, a->k[0]->w)); }
      case oLin: {
        if (a->nk == 1) {
          u64 co = a->co[0]; u64 r = (c - a->c) & M; unsigned z = __builtin_ctzll(co);
          if (z == 0) return xEq(a->k[0], mkConst((r * inv64(co)) & M, w));
          if (r & maskw(z)) return mkConst(0, 1);
          // co = 2^z*o : (o*x) mod 2^(w-z) == r>>z
          u64 o = co >> z; unsigned nw = w - z; u64 t = ((r >> z) * inv64(o)) & maskw(nw);
          return xEq(xExtract(a->k[0], 0, nw), mkConst(t, nw));
        }
        if (a->c) return xEq(xSub(a, mkConst(a->c, w)), mkConst(c - a->c, w));
        // disjoint bit-fields?
        std::vector<std::pair<unsigned, u32>> f; bool ok = true;
        for (u32 i = 0; i < a->nk && ok; i++) { u64 co = a->co[i]; if (co & (co - 1)) ok = false; else f.push_back({(unsigned)__builtin_ctzll(co), i}); }
        if (ok) {
          std::sort(f.begin(), f.end());
          for (size_t i = 0; i < f.size() && ok; i++) {
            unsigned lim = i + 1 < f.size() ? f[i + 1].first : w;
            u64 h = a->k[f[i].second]->hi; unsigned hb = h ? 64 - __builtin_clzll(h) : 0;
            if (f[i].first + hb > lim) ok = false;
          }
          if (ok) {
            if (c & maskw(f[0].first) & (f[0].first ? ~0ULL : 0)) return mkConst(0, 1);
            Expr* r = mkConst(1, 1);
            for (size_t i = 0; i < f.size(); i++) {
              unsigned s = f[i].first, lim = i + 1 < f.size() ? f[i + 1].first : w;
              u64 d = (c >> s) & maskw(lim - s);
              r = xAnd(r, xEq(a->k[f[i].second], mkConst(d, w)));
              if (isFalse(r)) return r;
            }
            return r;
          }
        }
        break; }
      case oIte:
        if (a->k[1]->op == oConst) return a->k[1]->c == c ? xOr(a->k[0], xEq(a->k[2], b)) : xAnd(xNot(a->k[0]), xEq(a->k[2], b));
        if (a->k[2]->op == oConst) return a->k[2]->c == c ? xOr(xNot(a->k[0]), xEq(a->k[1], b)) : xAnd(a->k[0], xEq(a->k[1], b));
        break;
      default: break;
    }
    if (a->lo == c && a->hi == c + 1) { }
    return mk2(oEq, 1, a, b);
  }
  if (a->op == oZExt && b->op == oZExt && a->k[0]->w == b->k[0]->w) return xEq(a->k[0], b->k[0]);
  if (a->op == oSExt && b->op == oSExt && a->k[0]->w == b->k[0]->w) return xEq(a->k[0], b->k[0]);
  if (a->op == oLin || b->op == oLin) {
    Expr* d = xSub(a, b);
    if (d->op == oConst) return mkConst(d->c == 0, 1);
    if (d->lo > 0) return mkConst(0, 1);
    if (d->op != oLin || d->nk == 1) return xEq(d, mkConst(0, w));
    // canonical: positive side / negative side
    LinAcc p, n; p.w = n.w = w;
    bool flip = sextw(d->co[0], w) < 0;
    for (u32 i = 0; i < d->nk; i++) { i64 co = sextw(d->co[i], w); if (flip) co = -co; if (co > 0) p.add(d->k[i], co); else n.add(d->k[i], -co); }
    i64 cc = sextw(d->c, w); if (flip) cc = -cc; 
    if (cc > 0) p.c += cc; else n.c += (u64)-cc;
    Expr* x = p.build(); Expr* y = n.build();
    if (y->op == oConst) { if (x == a && y == b) return mk2(oEq, 1, x, y);
      // avoid infinite recursion: x is Lin with nk>=2, handle via const path
      return xEq(x, y); }
    if (x->hi < y->lo || y->hi < x->lo) return mkConst(0, 1);
    if (x->op == oConst) return xEq(y, x);
    if (x->id > y->id) std::swap(x, y);
    return mk2(oEq, 1, x, y);
  }
  if (isTree(a) && isTree(b) && (u64)a->tsize * b->tsize <= 400) return mapTree(a, [=](u64 p) { return xEq(b, mkConst(p, w)); });
  if (a->op == oIte && a->k[1]->op != oIte && a->k[2]->op != oIte && (a->k[1] == b || a->k[2] == b))
    return a->k[1] == b ? xOr(a->k[0], xEq(a->k[2], b)) : xOr(xNot(a->k[0]), xEq(a->k[1], b));
  if (a->id > b->id) std::swap(a, b);
  return mk2(oEq, 1, a, b);
}

Expr* xUlt(Expr* a, Expr* b) {
  unsigned w = a->w;
  if (w == 1) return xAnd(xNot(a), b);
  if (a == b) return mkConst(0, 1);
  if (a->hi < b->lo) return mkConst(1, 1);
  if (a->lo >= b->hi) return mkConst(0, 1);
  if (b->op == oConst && a->op != oConst) {
    u64 c = b->c;
    if (isTree(a)) return mapTree(a, [=](u64 x) { return mkConst(x < c, 1); });
    if (c == a->lo + 1) return xEq(a, mkConst(a->lo, w));
    if (c == a->hi) return xNot(xEq(a, b));
    if (a->op == oZExt) return xUlt(a->k[0], mkConst(c, a->k[0]->w));  // c <= hi here, fits
    if (a->op == oLin && a->nk == 1) {
      // no-wrap check
      i64 co = sextw(a->co[0], w); i128 mn = (i128)sextw(a->c, w) + (co >= 0 ? (i128)co * a->k[0]->lo : (i128)co * a->k[0]->hi);
      i128 mx = (i128)sextw(a->c, w) + (co >= 0 ? (i128)co * a->k[0]->hi : (i128)co * a->k[0]->lo);
      if (mn >= 0 && mx <= (i128)maskw(w)) {
        i128 r = (i128)c - sextw(a->c, w);
        if (co > 0) { // co*x < r  <=> x < ceil(r/co)
          i128 q = (r + co - 1) / co; if (r <= 0) return mkConst(0, 1);
          return xUlt(a->k[0], mkConst((u64)q, w));
        } else { // -m*x < r <=> m*x > -r <=> x > floor(-r/m)
          i128 m = -(i128)co, t = -r; if (t < 0) return mkConst(1, 1);
          return xUlt(mkConst((u64)(t / m), w), a->k[0]);
        }
      }
    }
    if (a->op == oIte) {
      if (a->k[1]->hi < c) return xOr(a->k[0], xUlt(a->k[2], b));
      if (a->k[1]->lo >= c) return xAnd(xNot(a->k[0]), xUlt(a->k[2], b));
      if (a->k[2]->hi < c) return xOr(xNot(a->k[0]), xUlt(a->k[1], b));
      if (a->k[2]->lo >= c) return xAnd(a->k[0], xUlt(a->k[1], b));
    }
    return mk2(oUlt, 1, a, b);
  }
  if (a->op == oConst) {
    u64 c = a->c;
    if (b->op == oConst) return mkConst(c < b->c, 1);
    return xNot(xUlt(b, mkConst(c + 1, w)));   // c < b  <=> !(b < c+1);  c < hi(b) so no overflow
  }
  if (a->op == oZExt && b->op == oZExt) {
    unsigned m = std::max(a->k[0]->w, b->k[0]->w);
    if (m < w) return xUlt(xZExt(a->k[0], m), xZExt(b->k[0], m));
  }
  if (isTree(a) && isTree(b) && (u64)a->tsize * b->tsize <= 400) return mapTree(a, [=](u64 p) { return xUlt(mkConst(p, w), b); });
  return mk2(oUlt, 1, a, b);
}

Expr* xSlt(Expr* a, Expr* b) {
  unsigned w = a->w; u64 S = 1ULL << (w - 1);
  if (w == 1) return xAnd(a, xNot(b));
  if (a == b) return mkConst(0, 1);
  if (a->op == oConst && b->op == oConst) return mkConst(sextw(a->c, w) < sextw(b->c, w), 1);
  bool an = a->lo >= S, ap = a->hi < S, bn = b->lo >= S, bp = b->hi < S;
  if ((an && bn) || (ap && bp)) return xUlt(a, b);
  if (an && bp) return mkConst(1, 1);
  if (ap && bn) return mkConst(0, 1);
  if (b->op == oConst) {
    u64 c = b->c;
    if (isTree(a)) return mapTree(a, [=](u64 x) { return mkConst(sextw(x, w) < sextw(c, w), 1); });
    if (c == 0) return xNot(xUlt(a, mkConst(S, w)));
    if (sextw(c, w) > 0) return xOr(xNot(xUlt(a, mkConst(S, w))), xUlt(a, b));
    // negative const: a in [S, c)
    return xAnd(xNot(xUlt(a, mkConst(S, w))), xUlt(a, b));
  }
  if (a->op == oConst) {
    u64 c = a->c;
    if (isTree(b)) return mapTree(b, [=](u64 x) { return mkConst(sextw(c, w) < sextw(x, w), 1); });
    // c < b <=> !(b < c+1)
    if (c == S - 1) return mkConst(0, 1);
    return xNot(xSlt(b, mkConst(c + 1, w)));
  }
  if (a->op == oSExt && b->op == oSExt && a->k[0]->w == b->k[0]->w) return xSlt(a->k[0], b->k[0]);
  if (bp) return xOr(xNot(xUlt(a, mkConst(S, w))), xUlt(a, b));
  if (ap) return xAnd(xUlt(b, mkConst(S, w)), xUlt(a, b));
  return mk2(oSlt, 1, a, b);
}

Expr* xBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w; u64 M = maskw(w);
  if (a->op == oConst && b->op == oConst) return mkConst(evalOp(op, w, a->c, b->c), w);
  switch (op) {
    case oAnd: return xAnd(a, b);
    case oOr: return xOr(a, b);
    case oXor: return xXor(a, b);
    case oMul: return xMul(a, b);
    default: break;
  }
  if (b->op == oConst && isTree(a)) { u64 c = b->c; return mapTree(a, [=](u64 x) { return mkConst(evalOp(op, w, x, c), w); }); }
  if (a->op == oConst && isTree(b)) { u64 c = a->c; return mapTree(b, [=](u64 x) { return mkConst(evalOp(op, w, c, x), w); }); }
  if (b->op == oConst && b->c > 1 && (op == oURem || op == oUDiv) && a->op == oLin) {
    // a = c*Q + R with non-wrapping, non-negative parts
    u64 c = b->c; i128 mx = a->c; bool ok = true, some = a->c >= c;
    for (u32 i = 0; i < a->nk && ok; i++) {
      mx += (i128)a->co[i] * (i128)a->k[i]->hi; if (mx > (i128)M) ok = false;
      if (a->co[i] >= c) some = true;
    }
    if (ok && some) {
      LinAcc q, r; q.w = r.w = w; q.c = a->c / c; r.c = a->c % c;
      for (u32 i = 0; i < a->nk; i++) { q.add(a->k[i], a->co[i] / c); r.add(a->k[i], a->co[i] % c); }
      Expr* R = r.build();
      if (op == oURem) return xBin(oURem, R, b);
      return xAdd(q.build(), xBin(oUDiv, R, b));
    }
  }
  if (b->op == oConst) {
    u64 c = b->c;
    switch (op) {
      case oShl: if (c >= w) return mkConst(0, w); return xMulC(a, 1ULL << c);
      case oLShr: if (c >= w) return mkConst(0, w); if (c == 0) return a; return xZExt(xExtract(a, c, w - c), w);
      case oAShr: if (c >= w) c = w - 1; if (c == 0) return a; return xSExt(xExtract(a, c, w - c), w);
      case oUDiv: if (c == 1) return a; if (c && !(c & (c - 1))) return xBin(oLShr, a, mkConst(__builtin_ctzll(c), w)); if (c && a->hi < c) return mkConst(0, w); break;
      case oURem: if (c == 1) return mkConst(0, w); if (c && a->hi < c) return a; if (c && !(c & (c - 1))) return xAnd(a, mkConst(c - 1, w)); 
        if (c && a->hi < 2 * c && c < (M >> 1)) return xIte(xUlt(a, b), a, xSub(a, b));
        break;
      case oSDiv: if (c <= (M >> 1) && a->hi <= (M >> 1)) return xBin(oUDiv, a, b); break;
      case oSRem: if (c <= (M >> 1) && a->hi <= (M >> 1)) return xBin(oURem, a, b); break;
      default: break;
    }
  }
  if ((op == oUDiv) && a->hi < b->lo) return mkConst(0, w);
  if ((op == oURem) && a->hi < b->lo) return a;
  if (op == oSDiv && a->hi <= (M >> 1) && b->hi <= (M >> 1)) return xBin(oUDiv, a, b);
  if (op == oSRem && a->hi <= (M >> 1) && b->hi <= (M >> 1)) return xBin(oURem, a, b);
  return mk2(op, w, a, b);
}

// ---------- evaluation ----------
u64 evalExpr(Expr* e, const Model& m) {
  if (e->op == oConst) return e->c;
  if (e->op == oSym) return e->c < m.v.size() ? m.v[e->c] : 0;
  if (e->epoch == m.epoch) return e->ev;
  u64 r; u64 M = maskw(e->w);
  switch (e->op) {
    case oLin: { r = e->c; for (u32 i = 0; i < e->nk; i++) r += e->co[i] * evalExpr(e->k[i], m); r &= M; break; }
    case oIte: r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m); break;
    case oZExt: r = evalExpr(e->k[0], m); break;
    case oSExt: r = (u64)sextw(evalExpr(e->k[0], m), e->k[0]->w) & M; break;
    case oExtract: r = (evalExpr(e->k[0], m) >> e->c) & M; break;
    case oNot: r = !evalExpr(e->k[0], m); break;
    default: r = evalOp(e->op, e->k[0]->w, evalExpr(e->k[0], m), evalExpr(e->k[1], m)); break;
  }
  e->ev = r; e->epoch = m.epoch;
  return r;
}

// ---------- single-byte value tables ----------
static std::unordered_map<Expr*, std::vector<u64>> vtab;
const std::vector<u64>& valTable(Expr* e) {
  auto it = vtab.find(e); if (it != vtab.end()) return it->second;
  std::vector<u64> r(256); u64 M = maskw(e->w);
  switch (e->op) {
    case oConst: for (auto& x : r) x = e->c; break;
    case oSym: for (int i = 0; i < 256; i++) r[i] = i; break;
    case oLin: for (auto& x : r) x = e->c; for (u32 j = 0; j < e->nk; j++) { const std::vector<u64>& t = valTable(e->k[j]); for (int i = 0; i < 256; i++) r[i] += e->co[j] * t[i]; } for (auto& x : r) x &= M; break;
    case oIte: { std::vector<u64> a = valTable(e->k[0]), b = valTable(e->k[1]); const std::vector<u64>& c = valTable(e->k[2]); for (int i = 0; i < 256; i++) r[i] = a[i] ? b[i] : c[i]; break; }
    case oZExt: r = valTable(e->k[0]); break;
    case oSExt: r = valTable(e->k[0]); for (auto& x : r) x = (u64)sextw(x, e->k[0]->w) & M; break;
    case oExtract: r = valTable(e->k[0]); for (auto& x : r) x = (x >> e->c) & M; break;
    case oNot: r = valTable(e->k[0]); for (auto& x : r) x = !x; break;
    default: { std::vector<u64> a = valTable(e->k[0]); const std::vector<u64>& b = valTable(e->k[1]); for (int i = 0; i < 256; i++) r[i] = evalOp(e->op, e->k[0]->w, a[i], b[i]); break; }
  }
  return vtab[e] = std::move(r);
}
Expr* maskExpr(Expr* y, const Mask& m) {
  Expr* r = mkConst(0, 1);
  // use the complement when it has fewer runs
  int runs = 0; bool prev = false; for (int i = 0; i < 256; i++) { bool h = m.has(i); if (h && !prev) runs++; prev = h; }
  bool inv = m.has(0) && m.has(255);
  for (int i = 0; i < 256;) {
    if (m.has(i) == inv) { i++; continue; }
    int j = i; while (j < 256 && m.has(j) != inv) j++;
    Expr* c = j - i == 1 ? xEq(y, mkConst(i, 8)) : xAnd(xNot(xUlt(y, mkConst(i, 8))), j == 256 ? mkConst(1, 1) : xUlt(y, mkConst(j, 8)));
    r = xOr(r, c); i = j;
  }
  return inv ? xNot(r) : r;
}

// ---------- rebuild with new kids ----------
Expr* rebuild(Expr* e, Expr** k) {
  switch (e->op) {
    case oConst: case oSym: return e;
    case oLin: { LinAcc l; l.w = e->w; l.c = e->c; for (u32 i = 0; i < e->nk; i++) l.add(k[i], e->co[i]); return l.build(); }
    case oEq: return xEq(k[0], k[1]);
    case oUlt: return xUlt(k[0], k[1]);
    case oSlt: return xSlt(k[0], k[1]);
    case oIte: return xIte(k[0], k[1], k[2]);
    case oZExt: return xZExt(k[0], e->w);
    case oSExt: return xSExt(k[0], e->w);
    case oExtract: return xExtract(k[0], e->c, e->w);
    case oNot: return xNot(k[0]);
    default: return xBin(e->op, k[0], k[1]);
  }
}

// ---------- Z3 ----------
// Reference-counted context: every intermediate is protected until the outermost translation ends.
static std::vector<Z3_ast> ztmp; static int zdepth = 0;
template <class F> struct ZW { F f; template <class... A> Z3_ast operator()(A... a) { Z3_ast r = f(a...); Z3_inc_ref(g_z3, r); ztmp.push_back(r); return r; } };
template <class F> static ZW<F> T_(F f) { return ZW<F>{f}; }
static Z3_ast bvnum(u64 v, unsigned w) { return T_(Z3_mk_unsigned_int64)(g_z3, v & maskw(w), Z3_mk_bv_sort(g_z3, w)); }
// width-1 expressions are Z3 booleans.
static Z3_ast mulc(Z3_ast x, u64 c, unsigned w) {
  if (c == 1) return x;
  if (c == maskw(w)) return T_(Z3_mk_bvneg)(g_z3, x);
  if (!(c & (c - 1))) { unsigned s = __builtin_ctzll(c); return T_(Z3_mk_concat)(g_z3, T_(Z3_mk_extract)(g_z3, w - 1 - s, 0, x), bvnum(0, s)); }
  return T_(Z3_mk_bvmul)(g_z3, x, bvnum(c, w));
}
static Z3_ast toBV(Expr* e) { // as bit-vector even for width 1
  Z3_ast z = toZ3(e);
  if (e->w == 1) return T_(Z3_mk_ite)(g_z3, z, bvnum(1, 1), bvnum(0, 1));
  return z;
}
Z3_ast toZ3(Expr* e) {
  if (e->z) return e->z;
  zdepth++;
  Z3_ast r = nullptr; unsigned w = e->w;
  auto K = [&](int i) { return toZ3(e->k[i]); };
  switch (e->op) {
    case oConst: r = w == 1 ? (e->c ? T_(Z3_mk_true)(g_z3) : T_(Z3_mk_false)(g_z3)) : bvnum(e->c, w); break;
    case oSym: { Z3_symbol s = Z3_mk_int_symbol(g_z3, (int)e->c); r = T_(Z3_mk_const)(g_z3, s, w == 1 ? Z3_mk_bool_sort(g_z3) : Z3_mk_bv_sort(g_z3, w)); break; }
    case oLin: {
      for (u32 i = 0; i < e->nk; i++) {
        Z3_ast t = toZ3(e->k[i]);
        u64 co = e->co[i];
        if (r && sextw(co, w) < 0 && co != (1ULL << (w - 1))) { r = T_(Z3_mk_bvsub)(g_z3, r, mulc(t, (0 - co) & maskw(w), w)); continue; }
        t = mulc(t, co, w);
        r = r ? T_(Z3_mk_bvadd)(g_z3, r, t) : t;
      }
      if (e->c) r = T_(Z3_mk_bvadd)(g_z3, r, bvnum(e->c, w));
      break; }
    case oMul: r = T_(Z3_mk_bvmul)(g_z3, K(0), K(1)); break;
    case oUDiv: r = T_(Z3_mk_bvudiv)(g_z3, K(0), K(1)); break;
    case oSDiv: r = T_(Z3_mk_bvsdiv)(g_z3, K(0), K(1)); break;
    case oURem: r = T_(Z3_mk_bvurem)(g_z3, K(0), K(1)); break;
    case oSRem: r = T_(Z3_mk_bvsrem)(g_z3, K(0), K(1)); break;
    case oAnd: if (w == 1) { Z3_ast a[2] = {K(0), K(1)}; r = T_(Z3_mk_and)(g_z3, 2, a); } else r = T_(Z3_mk_bvand)(g_z3, K(0), K(1)); break;
    case oOr: if (w == 1) { Z3_ast a[2] = {K(0), K(1)}; r = T_(Z3_mk_or)(g_z3, 2, a); } else r = T_(Z3_mk_bvor)(g_z3, K(0), K(1)); break;
    case oXor: if (w == 1) r = T_(Z3_mk_xor)(g_z3, K(0), K(1)); else r = T_(Z3_mk_bvxor)(g_z3, K(0), K(1)); break;
    case oShl: r = T_(Z3_mk_bvshl)(g_z3, K(0), K(1)); break;
    case oLShr: r = T_(Z3_mk_bvlshr)(g_z3, K(0), K(1)); break;
    case oAShr: r = T_(Z3_mk_bvashr)(g_z3, K(0), K(1)); break;
    case oEq: r = T_(Z3_mk_eq)(g_z3, K(0), K(1)); break;
    case oUlt: r = T_(Z3_mk_bvult)(g_z3, K(0), K(1)); break;
    case oSlt: r = T_(Z3_mk_bvslt)(g_z3, K(0), K(1)); break;
    case oIte: r = T_(Z3_mk_ite)(g_z3, K(0), K(1), K(2)); break;
    case oZExt: r = T_(Z3_mk_zero_ext)(g_z3, w - e->k[0]->w, toBV(e->k[0])); break;
    case oSExt: r = T_(Z3_mk_sign_ext)(g_z3, w - e->k[0]->w, toBV(e->k[0])); break;
    case oExtract: { Z3_ast x = T_(Z3_mk_extract)(g_z3, e->c + w - 1, e->c, K(0)); r = w == 1 ? T_(Z3_mk_eq)(g_z3, x, bvnum(1, 1)) : x; break; }
    case oNot: r = T_(Z3_mk_not)(g_z3, K(0)); break;
  }
  Z3_inc_ref(g_z3, r);
  e->z = r;
  if (--zdepth == 0) { for (Z3_ast t : ztmp) Z3_dec_ref(g_z3, t); ztmp.clear(); }
  return r;
}

std::string exprStr(Expr* e, int d) {
  static const char* nm[] = {"", "", "lin", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "zext", "sext", "extract", "not"};
  if (e->op == oConst) return std::to_string(e->c) + ":" + std::to_string(e->w);
  if (e->op == oSym) return g_symname[e->c];
  if (d <= 0) return "..";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == oLin && e->c) s += " " + std::to_string(sextw(e->c, e->w));
  if (e->op == oExtract) s += " @" + std::to_string(e->c);
  if (e->op >= oZExt) s += ":" + std::to_string(e->w);
  for (u32 i = 0; i < e->nk; i++) { s += " "; if (e->op == oLin && e->co[i] != 1) s += std::to_string(sextw(e->co[i], e->w)) + "*"; s += exprStr(e->k[i], d - 1); }
  return s + ")";
}

// ---------- integer encoding of the linear fragment ----------
// Every bit-vector term is an integer in [0,2^w); wrap-around and bit slices
// introduce bounded fresh quotients.  Exact; unsupported operators give null.
namespace {
struct IE { Z3_ast t; bool bad; };
std::unordered_map<Expr*, IE> imemo; std::unordered_map<Expr*, std::vector<Z3_ast>> iside; int ifresh = 0;
Z3_sort isort() { return Z3_mk_int_sort(g_z3); }
Z3_ast keep(Z3_ast a) { Z3_inc_ref(g_z3, a); return a; }
Z3_ast inum(i128 v) {
  char b[64]; int n = 63; b[n] = 0; bool neg = v < 0; if (neg) v = -v; do { b[--n] = '0' + (int)(v % 10); v /= 10; } while (v); if (neg) b[--n] = '-';
  return keep(Z3_mk_numeral(g_z3, b + n, isort()));
}
Z3_ast ifreshc() { return keep(Z3_mk_const(g_z3, Z3_mk_int_symbol(g_z3, (1 << 24) + ifresh++), isort())); }
Z3_ast iadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_add(g_z3, 2, x)); }
Z3_ast isub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_sub(g_z3, 2, x)); }
Z3_ast imulc(Z3_ast a, i128 c) { if (c == 1) return a; Z3_ast x[2] = {inum(c), a}; return keep(Z3_mk_mul(g_z3, 2, x)); }
Z3_ast rng(Z3_ast a, i128 lo, i128 hi) { Z3_ast x[2] = {Z3_mk_le(g_z3, inum(lo), a), nullptr}; keep(x[0]); x[1] = keep(Z3_mk_le(g_z3, a, inum(hi))); return keep(Z3_mk_and(g_z3, 2, x)); }
Z3_ast itr(Expr* e);
Z3_ast isgn(Expr* e) { Z3_ast a = itr(e); if (!a) return nullptr; u64 H = 1ULL << (e->w - 1); if (e->hi < H) return a;
  return keep(Z3_mk_ite(g_z3, keep(Z3_mk_ge(g_z3, a, inum((i128)H))), isub(a, inum((i128)1 << e->w)), a)); }
Z3_ast itr(Expr* e) {
  auto it = imemo.find(e); if (it != imemo.end()) return it->second.t;
  Z3_ast r = nullptr; unsigned w = e->w; std::vector<Z3_ast> side;
  switch (e->op) {
    case oConst: r = w == 1 ? keep(e->c ? Z3_mk_true(g_z3) : Z3_mk_false(g_z3)) : inum(e->c); break;
    case oSym: if (w == 1) { r = nullptr; break; }
      r = keep(Z3_mk_const(g_z3, Z3_mk_int_symbol(g_z3, (int)e->c), isort())); side.push_back(rng(r, 0, maskw(w))); break;
    case oLin: {
      i128 mn = sextw(e->c, w), mx = mn; Z3_ast S = e->c ? inum(mn) : nullptr; bool ok = true;
      for (u32 i = 0; i < e->nk && ok; i++) {
        Z3_ast x = itr(e->k[i]); if (!x) { ok = false; break; }
        i128 co = sextw(e->co[i], w); i128 a = co * (i128)e->k[i]->lo, b = co * (i128)e->k[i]->hi; if (co < 0) std::swap(a, b); mn += a; mx += b;
        Z3_ast t = imulc(x, co); S = S ? iadd(S, t) : t;
        if (mn < -((i128)1 << 110) || mx > ((i128)1 << 110)) ok = false;
      }
      if (!ok) break;
      i128 P = (i128)1 << w; auto fl = [&](i128 v) { return v >= 0 ? v / P : -((-v + P - 1) / P); };
      i128 kl = fl(mn), kh = fl(mx);
      if (kl == kh) r = kl == 0 ? S : isub(S, inum(kl * P));
      else { Z3_ast k = ifreshc(); side.push_back(rng(k, kl, kh)); r = isub(S, imulc(k, P)); side.push_back(rng(r, 0, P - 1)); }
      break; }
    case oZExt: if (e->k[0]->w == 1) { Z3_ast b = itr(e->k[0]); if (b) r = keep(Z3_mk_ite(g_z3, b, inum(1), inum(0))); } else r = itr(e->k[0]); break;
    case oSExt: if (e->k[0]->w == 1) { Z3_ast b = itr(e->k[0]); if (b) r = keep(Z3_mk_ite(g_z3, b, inum(maskw(w)), inum(0))); }
      else { Z3_ast a = itr(e->k[0]); unsigned v = e->k[0]->w; if (a) r = keep(Z3_mk_ite(g_z3, keep(Z3_mk_ge(g_z3, a, inum((i128)1 << (v - 1)))), iadd(a, inum(((i128)1 << w) - ((i128)1 << v))), a)); }
      break;
    case oExtract: {
      Z3_ast a = itr(e->k[0]); if (!a) break; Expr* x = e->k[0];
      unsigned lo = e->c; u64 hh = lo + w >= 64 ? 0 : x->hi >> (lo + w);
      Z3_ast q = ifreshc(); side.push_back(rng(q, 0, maskw(w)));
      Z3_ast sum = lo ? imulc(q, (i128)1 << lo) : q;
      if (lo) { Z3_ast l = ifreshc(); side.push_back(rng(l, 0, maskw(lo))); sum = iadd(sum, l); }
      if (hh) { Z3_ast h = ifreshc(); side.push_back(rng(h, 0, hh)); sum = iadd(sum, imulc(h, (i128)1 << (lo + w))); }
      side.push_back(keep(Z3_mk_eq(g_z3, a, sum)));
      r = w == 1 ? keep(Z3_mk_eq(g_z3, q, inum(1))) : q; break; }
    case oURem: case oUDiv: {
      if (e->k[1]->op != oConst || !e->k[1]->c) break;
      Z3_ast a = itr(e->k[0]); if (!a) break; u64 c = e->k[1]->c;
      Z3_ast q = ifreshc(), m = ifreshc(); side.push_back(rng(q, 0, e->k[0]->hi / c)); side.push_back(rng(m, 0, c - 1));
      side.push_back(keep(Z3_mk_eq(g_z3, a, iadd(imulc(q, c), m)))); r = e->op == oURem ? m : q; break; }
    case oEq: { if (e->k[0]->w == 1) { Z3_ast a = itr(e->k[0]), b = itr(e->k[1]); if (a && b) r = keep(Z3_mk_iff(g_z3, a, b)); break; } Z3_ast a = itr(e->k[0]), b = itr(e->k[1]); if (a && b) r = keep(Z3_mk_eq(g_z3, a, b)); break; }
    case oUlt: { Z3_ast a = itr(e->k[0]), b = itr(e->k[1]); if (e->k[0]->w > 1 && a && b) r = keep(Z3_mk_lt(g_z3, a, b)); break; }
    case oSlt: { if (e->k[0]->w == 1) break; Z3_ast a = isgn(e->k[0]), b = isgn(e->k[1]); if (a && b) r = keep(Z3_mk_lt(g_z3, a, b)); break; }
    case oIte: { Z3_ast c = itr(e->k[0]), a = itr(e->k[1]), b = itr(e->k[2]); if (c && a && b) r = keep(Z3_mk_ite(g_z3, c, a, b)); break; }
    case oNot: { Z3_ast a = itr(e->k[0]); if (a) r = keep(Z3_mk_not(g_z3, a)); break; }
    case oAnd: case oOr: case oXor: if (w == 1) { Z3_ast x[2] = {itr(e->k[0]), itr(e->k[1])}; if (x[0] && x[1]) r = keep(e->op == oAnd ? Z3_mk_and(g_z3, 2, x) : e->op == oOr ? Z3_mk_or(g_z3, 2, x) : Z3_mk_xor(g_z3, x[0], x[1])); } break;
    default: break;
  }
  imemo[e] = IE{r, !r}; if (!side.empty()) iside[e] = side;
  return r;
}
void isides(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Z3_ast>& out) {
  if (!seen.insert(e).second) return;
  auto it = iside.find(e); if (it != iside.end()) for (Z3_ast a : it->second) out.push_back(a);
  for (u32 i = 0; i < e->nk; i++) isides(e->k[i], seen, out);
}
}
// Appends the integer encoding of all of cs to out; false if outside the fragment.
bool toIntFormulas(const std::vector<Expr*>& cs, std::vector<Z3_ast>& out, size_t maxNodes) {
  std::unordered_set<Expr*> cnt; std::vector<Expr*> st(cs.begin(), cs.end());
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!cnt.insert(x).second) continue; if (cnt.size() > maxNodes) return false; for (u32 i = 0; i < x->nk; i++) st.push_back(x->k[i]); }
  for (Expr* e : cs) if (!itr(e)) return false;
  std::unordered_set<Expr*> seen; for (Expr* e : cs) { out.push_back(itr(e)); isides(e, seen, out); }
  return true;
}
