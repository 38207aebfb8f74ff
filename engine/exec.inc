// ---- part of vsym.cpp: decoding, intrinsics, interpreter, driver ----

// =================== type flattening ===================
struct Slot { u8 w; u32 off; };
static unsigned tyW(Type* t) {
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); return b <= 64 ? b : 0; }
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static bool flatten(Type* t, u32 off, std::vector<Slot>& out) {
  unsigned w = tyW(t); if (w) { out.push_back({(u8)w, off}); return true; }
  if (auto* sT = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(sT); for (unsigned i = 0; i < sT->getNumElements(); i++) if (!flatten(sT->getElementType(i), off + (u32)L->getElementOffset(i), out)) return false; return true; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u32 es = DL->getTypeAllocSize(a->getElementType()); if (a->getNumElements() > 64) return false; for (unsigned i = 0; i < a->getNumElements(); i++) if (!flatten(a->getElementType(), off + i * es, out)) return false; return true; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { unsigned ew = tyW(v->getElementType()); if (!ew || ew % 8) return false; for (unsigned i = 0; i < v->getNumElements(); i++) out.push_back({(u8)ew, off + i * ew / 8}); return true; }
  if (t->isVoidTy()) return true;
  return false;
}
static int nSlots(Type* t) { std::vector<Slot> v; if (!flatten(t, 0, v)) return -1; return v.size(); }

// =================== constants ===================
static u64 globalAddr(const GlobalValue* g);
static bool evalConst(const Constant* c, std::vector<V>& out) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) { int n = nSlots(t); if (n < 0) return false; for (int i = 0; i < n; i++) out.push_back(C(0)); return true; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out.push_back(C(ci->getZExtValue())); return true; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(C(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return true; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(C(0)); return true; }
  if (isa<ConstantAggregateZero>(c)) { int n = nSlots(t); if (n < 0) return false; for (int i = 0; i < n; i++) out.push_back(C(0)); return true; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(C(globalAddr(g))); return true; }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < a->getNumOperands(); i++) if (!evalConst(cast<Constant>(a->getOperand(i)), out)) return false; return true; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) if (!evalConst(d->getElementAsConstant(i), out)) return false; return true; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (e->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) return false;
      std::vector<V> b; if (!evalConst(cast<Constant>(e->getOperand(0)), b)) return false; out.push_back(C(b[0].c + off.getSExtValue())); return true;
    }
    std::vector<V> a; if (!evalConst(e->getOperand(0), a)) return false;
    u64 m = maskw(tyW(t));
    switch (e->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast: out.push_back(C(a[0].c & m)); return true;
      default: break;
    }
    if (e->getNumOperands() == 2) {
      std::vector<V> b; if (!evalConst(e->getOperand(1), b)) return false;
      switch (e->getOpcode()) {
        case Instruction::Add: out.push_back(C((a[0].c + b[0].c) & m)); return true;
        case Instruction::Sub: out.push_back(C((a[0].c - b[0].c) & m)); return true;
        case Instruction::Mul: out.push_back(C((a[0].c * b[0].c) & m)); return true;
        case Instruction::ICmp: { bool r; switch (e->getPredicate()) { case CmpInst::ICMP_EQ: r = a[0].c == b[0].c; break; case CmpInst::ICMP_NE: r = a[0].c != b[0].c; break; case CmpInst::ICMP_ULT: r = a[0].c < b[0].c; break; case CmpInst::ICMP_UGT: r = a[0].c > b[0].c; break; default: return false; } out.push_back(C(r)); return true; }
        default: break;
      }
    }
  }
  return false;
}
static State* initSt;
static Fn* getFn(Function* f) {
  auto it = fns.find(f); if (it != fns.end()) return it->second;
  Fn* n = new Fn; n->f = f; n->name = f->getName().str(); n->isDecl = f->isDeclaration(); fns[f] = n; fnList.push_back(n); return n;
}
static u64 globalAddr(const GlobalValue* g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto* a = dyn_cast<GlobalAlias>(g)) { std::vector<V> v; u64 r = 0; if (evalConst(a->getAliasee(), v)) r = v[0].c; return gaddr[g] = r; }
  if (isa<Function>(g)) {
    // function objects get ids too; created lazily at decode time => must exist in every state, so only address matters
    static u32 fid = 0x40000000; u64 ad = (u64)(fid++) << 32; gaddr[g] = ad; Fn* n = getFn(const_cast<Function*>(cast<Function>(g))); n->addr = ad; fnByAddr[ad] = n; return ad;
  }
  fprintf(stderr, "vsym: address of unknown global %s\n", g->getName().str().c_str()); abort();
}
static void initGlobal(Obj* o, u64 off, const Constant* c) {
  Type* t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { return; }  // zero fill
  if (auto* a = dyn_cast<ConstantStruct>(c)) { const StructLayout* L = DL->getStructLayout(a->getType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(o, off + L->getElementOffset(i), a->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(o, off + i * es, a->getOperand(i)); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(d->getElementType()); for (unsigned i = 0; i < d->getNumElements(); i++) initGlobal(o, off + i * es, d->getElementAsConstant(i)); return; }
  std::vector<V> v; if (!evalConst(c, v)) { std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "vsym: unsupported initializer %s\n", s.c_str()); return; }
  if (v.size() == 1) storeAt(o, off, v[0], tyW(t)); (void)sz;
}

// =================== decoding ===================
struct Dec {
  Fn* fn; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bstart;
  Opd cpool(V v) { fn->pool.push_back(v); return ~(int)(fn->pool.size() - 1); }
  bool opds(const Value* v, std::vector<Opd>& o) {
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<V> vs; if (!evalConst(c, vs)) return false; for (auto& x : vs) o.push_back(cpool(x)); return true; }
    auto it = slot.find(v); if (it == slot.end()) return false;
    int n = nSlots(v->getType()); for (int i = 0; i < n; i++) o.push_back(it->second + i); return true;
  }
  Opd opd(const Value* v, bool& ok) { std::vector<Opd> o; if (!opds(v, o) || o.size() != 1) { ok = false; return 0; } return o[0]; }
};
static void lineOf(const Instruction& I, Ins& n) {
  if (auto& dl = I.getDebugLoc()) { DILocation* L = dl.get(); n.line = L->getLine(); n.file = L->getFilename().data(); }
}
static Edge mkEdge(Dec& D, const BasicBlock* from, const BasicBlock* to, bool& ok) {
  Edge e; e.target = D.bstart[to];
  for (auto& phi : to->phis()) { std::vector<Opd> o; const Value* v = phi.getIncomingValueForBlock(from); if (!D.opds(v, o)) ok = false; int b = D.slot[&phi]; for (size_t i = 0; i < o.size(); i++) if (o[i] != b + (int)i) e.copies.push_back({b + (int)i, o[i]}); }
  return e;
}
static void aggIndex(Type* t, ArrayRef<unsigned> idx, unsigned& start) {
  start = 0;
  for (unsigned ix : idx) {
    if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) start += nSlots(s->getElementType(i)); t = s->getElementType(ix); }
    else { auto* a = cast<ArrayType>(t); start += ix * nSlots(a->getElementType()); t = a->getElementType(); }
  }
}
static void decode(Fn* fn) {
  fn->decoded = true; Function& F = *fn->f; Dec D; D.fn = fn;
  int ns = 0;
  for (auto& a : F.args()) { int n = nSlots(a.getType()); D.slot[&a] = ns; std::vector<Slot> sl; flatten(a.getType(), 0, sl); for (int i = 0; i < n; i++) { fn->argSlots.push_back(ns + i); fn->argW.push_back(sl[i].w); } ns += std::max(n, 0); }
  for (auto& B : F) for (auto& I : B) { int n = nSlots(I.getType()); if (n > 0) { D.slot[&I] = ns; ns += n; } }
  // first pass: block starts
  int pc = 0;
  auto skip = [](Instruction& I) {
    if (isa<PHINode>(I)) return true;
    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) switch (ii->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::assume: case Intrinsic::dbg_assign: return true; default: break; }
    return false; };
  for (auto& B : F) { D.bstart[&B] = pc; for (auto& I : B) if (!skip(I)) pc++; }
  for (auto& B : F) for (auto& I : B) {
    if (skip(I)) continue;
    fn->code.emplace_back(); Ins& n = fn->code.back(); lineOf(I, n);
    n.dst = D.slot.count(&I) ? D.slot[&I] : -1; bool ok = true; n.n = 1;
    std::vector<Slot> sl; bool flat = flatten(I.getType(), 0, sl); n.w = sl.size() == 1 ? sl[0].w : 0;
    bool vec = I.getType()->isVectorTy(); for (auto& o : I.operands()) if (o->getType()->isVectorTy()) vec = true;
    if (!flat) ok = false;
    if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<PHINode>(I)) ok = false;
    if (ok) switch (I.getOpcode()) {
      case Instruction::Add: n.op = iAdd; n.a = D.opd(I.getOperand(0), ok); n.b = D.opd(I.getOperand(1), ok); break;
      case Instruction::Sub: n.op = iSub; n.a = D.opd(I.getOperand(0), ok); n.b = D.opd(I.getOperand(1), ok); break;
#define B_(O, X) case Instruction::O: n.op = iBin; n.sub = X; n.a = D.opd(I.getOperand(0), ok); n.b = D.opd(I.getOperand(1), ok); break;
      B_(Mul, oMul) B_(UDiv, oUDiv) B_(SDiv, oSDiv) B_(URem, oURem) B_(SRem, oSRem) B_(And, oAnd) B_(Or, oOr) B_(Xor, oXor) B_(Shl, oShl) B_(LShr, oLShr) B_(AShr, oAShr)
#undef B_
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        n.op = iFBin; n.sub = I.getOpcode() - Instruction::FAdd; 
        n.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4;
        n.a = D.opd(I.getOperand(0), ok); n.b = D.opd(I.getOperand(1), ok); break;
      case Instruction::FNeg: n.op = iFNeg; n.a = D.opd(I.getOperand(0), ok); break;
      case Instruction::FCmp: n.op = iFCmp; n.sub = cast<FCmpInst>(I).getPredicate(); n.srcw = tyW(I.getOperand(0)->getType()); n.a = D.opd(I.getOperand(0), ok); n.b = D.opd(I.getOperand(1), ok); break;
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
        n.op = iFCast; n.c = I.getOpcode(); n.srcw = tyW(I.getOperand(0)->getType()); n.a = D.opd(I.getOperand(0), ok); break;
      case Instruction::ICmp: n.op = iCmp; n.sub = cast<ICmpInst>(I).getPredicate(); n.srcw = tyW(I.getOperand(0)->getType()); if (!n.srcw) ok = false; n.a = D.opd(I.getOperand(0), ok); n.b = D.opd(I.getOperand(1), ok); break;
      case Instruction::ZExt: n.op = iZExt; n.srcw = tyW(I.getOperand(0)->getType()); n.a = D.opd(I.getOperand(0), ok); break;
      case Instruction::SExt: n.op = iSExt; n.srcw = tyW(I.getOperand(0)->getType()); n.a = D.opd(I.getOperand(0), ok); break;
      case Instruction::Trunc: n.op = iTrunc; n.srcw = tyW(I.getOperand(0)->getType()); n.a = D.opd(I.getOperand(0), ok); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned sw = tyW(I.getOperand(0)->getType()); n.srcw = sw; n.a = D.opd(I.getOperand(0), ok);
        n.op = sw == n.w ? iMove : sw < n.w ? iZExt : iTrunc; break; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        std::vector<Opd> o; if (!D.opds(I.getOperand(0), o) || o.size() != sl.size()) { ok = false; break; }
        if (o.size() == 1) { n.op = iMove; n.a = o[0]; } else { n.op = iInsert; n.ops = o; } break; }
      case Instruction::Select: {
        bool k2 = true; n.op = iSelect; n.a = D.opd(I.getOperand(0), ok); std::vector<Opd> t, e; if (!D.opds(I.getOperand(1), t) || !D.opds(I.getOperand(2), e)) ok = false;
        for (size_t i = 0; i < t.size(); i++) { n.ops.push_back(t[i]); n.ops.push_back(e[i]); n.ws.push_back(sl[i].w); } (void)k2; break; }
      case Instruction::Load: { n.op = iLoad; n.a = D.opd(I.getOperand(0), ok); for (auto& x : sl) { n.ws.push_back(x.w); n.offs.push_back(x.off); } break; }
      case Instruction::Store: { n.op = iStore; n.a = D.opd(I.getOperand(1), ok); if (!D.opds(I.getOperand(0), n.ops)) ok = false; std::vector<Slot> vs; if (!flatten(I.getOperand(0)->getType(), 0, vs)) ok = false; for (auto& x : vs) { n.ws.push_back(x.w); n.offs.push_back(x.off); } break; }
      case Instruction::GetElementPtr: {
        n.op = iGep; n.a = D.opd(I.getOperand(0), ok); n.off = 0;
        for (auto gi = gep_type_begin(&I), ge = gep_type_end(&I); gi != ge; ++gi) {
          Value* ix = gi.getOperand();
          if (StructType* sT = gi.getStructTypeOrNull()) { n.off += DL->getStructLayout(sT)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sc = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { n.off += ci->getSExtValue() * sc; continue; }
          n.idx.push_back({D.opd(ix, ok), tyW(ix->getType()), sc});
        } break; }
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); n.op = iAlloca; n.size = DL->getTypeAllocSize(A.getAllocatedType()); n.a = D.opd(A.getArraySize(), ok); n.srcw = tyW(A.getArraySize()->getType()); break; }
      case Instruction::Br: { auto& Bi = cast<BranchInst>(I); if (Bi.isConditional()) { n.op = iCondBr; n.a = D.opd(Bi.getCondition(), ok); n.edges.push_back(mkEdge(D, &B, Bi.getSuccessor(0), ok)); n.edges.push_back(mkEdge(D, &B, Bi.getSuccessor(1), ok)); } else { n.op = iBr; n.edges.push_back(mkEdge(D, &B, Bi.getSuccessor(0), ok)); } break; }
      case Instruction::Switch: { auto& S = cast<SwitchInst>(I); n.op = iSwitch; n.a = D.opd(S.getCondition(), ok); n.srcw = tyW(S.getCondition()->getType()); n.edges.push_back(mkEdge(D, &B, S.getDefaultDest(), ok));
        std::map<const BasicBlock*, int> em; 
        for (auto& cs : S.cases()) { const BasicBlock* t = cs.getCaseSuccessor(); if (!em.count(t)) { em[t] = n.edges.size(); n.edges.push_back(mkEdge(D, &B, t, ok)); } n.cases.push_back({cs.getCaseValue()->getZExtValue(), em[t]}); } break; }
      case Instruction::Ret: n.op = iRet; if (I.getNumOperands()) if (!D.opds(I.getOperand(0), n.ops)) ok = false; break;
      case Instruction::Unreachable: n.op = iUnreach; break;
      case Instruction::ExtractValue: { auto& X = cast<ExtractValueInst>(I); std::vector<Opd> o; if (!D.opds(X.getAggregateOperand(), o)) { ok = false; break; } unsigned stt; aggIndex(X.getAggregateOperand()->getType(), X.getIndices(), stt); n.op = iInsert; for (size_t i = 0; i < sl.size(); i++) n.ops.push_back(o[stt + i]); break; }
      case Instruction::InsertValue: { auto& X = cast<InsertValueInst>(I); std::vector<Opd> o, v; if (!D.opds(X.getAggregateOperand(), o) || !D.opds(X.getInsertedValueOperand(), v)) { ok = false; break; } unsigned stt; aggIndex(X.getType(), X.getIndices(), stt); for (size_t i = 0; i < v.size(); i++) o[stt + i] = v[i]; n.op = iInsert; n.ops = o; break; }
      case Instruction::Call: {
        auto& Cl = cast<CallInst>(I); n.op = iCall; n.n = sl.size(); for (auto& x : sl) n.ws.push_back(x.w);
        Value* cv = Cl.getCalledOperand()->stripPointerCastsAndAliases();
        if (isa<InlineAsm>(cv)) { if (Cl.getType()->isVoidTy()) { n.op = iInsert; break; } ok = false; break; }
        if (auto* cf = dyn_cast<Function>(cv)) { n.cf = cf; n.callee = getFn(cf); } else n.a = D.opd(cv, ok);
        unsigned ai = 0;
        for (auto& ar : Cl.args()) { 
          if (ar->getType()->isMetadataTy()) { n.ops.push_back(D.cpool(C(0))); n.byval.push_back(0); n.offs.push_back(0); ai++; continue; }
          std::vector<Opd> o; if (!D.opds(ar, o)) ok = false; u32 bv = 0; if (Cl.isByValArgument(ai)) bv = DL->getTypeAllocSize(Cl.getParamByValType(ai));
          for (auto x : o) { n.ops.push_back(x); n.byval.push_back(bv); n.offs.push_back(tyW(ar->getType())); } ai++; }
        break; }
      default: ok = false;
    }
    if (!ok) { n.op = iUnsup; std::string s; raw_string_ostream os(s); I.print(os); n.msg = s; }
  }
  fn->nregs = ns;
}

// =================== native functions ===================
static bool argc_(Ins& I, size_t n) { return I.ops.size() >= n; }
static void setRet(State& s, Ins& I, V v) { if (I.dst >= 0) s.fr.back().r[I.dst] = v; }
static V argS(State& s, V v) { return v.e ? VE(simp(s, v.e)) : v; }

static u64 concSize(State& s, V v, const char* why) { return concretize(s, v, 64, why); }
static bool nMalloc(State& s, Ins& I, V* a) {
  V n = argS(s, a[0]);
  auto lim = s.cells.find("alloc_limit");
  if (lim != s.cells.end()) {
    if (!n.e) { if (n.c > lim->second) killErr(s, "alloc-limit", "allocation of " + std::to_string(n.c) + " bytes exceeds the harness's limit"); }
    else { Expr* over = simp(s, xUlt(mkConst(lim->second, 64), n.e)); std::shared_ptr<Model> m;
      if (!isFalse(over) && query(s, over, &m) == 1) { s.wit = m; addConstraint(s, over); killErr(s, "alloc-limit", "allocation can exceed the harness's limit"); } }
  }
  s.cells["heap"]++;
  if (n.e) {
    // symbolic size: decide with an upper bound; keep symbolic when the range is wide
    u64 v = 0; bool wide = false;
    Expr* big = xUlt(mkConst(1ULL << 30, 64), n.e); big = simp(s, big);
    std::shared_ptr<Model> m;
    if (!isFalse(big)) { int r = query(s, big, &m); if (r == 1) { // allocation beyond 1 GiB possible: split off
        if (evalExpr(big, *s.wit)) { State* o = nullptr; std::shared_ptr<Model> m2; int r2 = query(s, xNot(big), &m2); if (r2 == 1) { o = forkState(s); o->wit = m2; addConstraint(*o, xNot(big)); work.push_back(o); } addConstraint(s, big); killErr(s, "huge-allocation", "allocation of more than 1 GiB requested"); }
        State* o = forkState(s); o->wit = m; addConstraint(*o, big); addConstraint(s, xNot(big)); work.push_back(o); } }
    else if (0) (void)wide;
    u64 cur = evalExpr(n.e, *s.wit); (void)v;
    // few values?  try enumerating up to 3, otherwise symbolic object
    u32 id = s.mem.next; 
    u64 hi = std::min<u64>(n.e->hi, 1ULL << 30);
    s.mem.next++; Obj* o = newObj(id, hi, kHeap, bUninit); o->symSize = n.e; s.mem.put(id, o); (void)cur;
    setRet(s, I, C(addrOf(id))); return true;
  }
  if (n.c > (1ULL << 30)) killErr(s, "huge-allocation", "allocation of " + std::to_string(n.c) + " bytes requested");
  u32 id = allocObj(s, n.c, kHeap, bUninit); setRet(s, I, C(addrOf(id))); return true;
}
static bool nCalloc(State& s, Ins& I, V* a) { u64 n = concSize(s, a[0], "calloc"), m = concSize(s, a[1], "calloc"); s.cells["heap"]++; u32 id = allocObj(s, n * m, kHeap, bConc); setRet(s, I, C(addrOf(id))); return true; }
static bool nFree(State& s, Ins& I, V* a) {
  u64 p = concretize(s, a[0], 64, "free"); if (!p) return true;
  Obj* o = s.mem.get(p >> 32);
  if (!o) killErr(s, "double-free", "free of freed or invalid pointer");
  if (o->kind != kHeap || (p & 0xffffffff)) killErr(s, "bad-free", "free of a pointer that was not allocated");
  s.mem.del(p >> 32); s.cells["heap"]--; return true;
}
static bool nMemcpy(State& s, Ins& I, V* a) {
  u64 n = concSize(s, a[2], "memcpy size"); BV_ b;
  if (n > (1ULL << 26)) { killErr(s, "out-of-bounds", "memcpy of huge size"); }
  readBytes(s, a[0 + 1], n, b, true, "memcpy source"); writeBytes(s, a[0], n, b, "memcpy destination");
  setRet(s, I, a[0]); return true;
}
// memcpy proper: overlapping areas are undefined (identical ones are what compilers emit for self-assignment)
static bool nMemcpyStrict(State& s, Ins& I, V* a) {
  if (!a[0].e && !a[1].e && !a[2].e && a[2].c && a[0].c != a[1].c && (a[0].c >> 32) == (a[1].c >> 32)) { u64 x = a[0].c, y = a[1].c, n = a[2].c; if (x < y ? y - x < n : x - y < n) killErr(s, "memcpy-overlap", "memcpy between overlapping areas"); }
  return nMemcpy(s, I, a);
}
static bool nRealloc(State& s, Ins& I, V* a) {
  u64 p = concretize(s, a[0], 64, "realloc"), n = concSize(s, a[1], "realloc"); if (!p) { V b[1] = {a[1]}; return nMalloc(s, I, b); }
  Obj* o = s.mem.get(p >> 32); if (!o) killErr(s, "double-free", "realloc of freed or invalid pointer");
  if (o->kind != kHeap || (p & 0xffffffff)) killErr(s, "bad-free", "realloc of a pointer that was not allocated");
  if (o->symSize) killErr(s, "unmodelled", "realloc of a block of symbolic size");
  u64 m = std::min<u64>(n, o->size); BV_ b; readBytes(s, C(p), m, b, true, "realloc"); u32 id = allocObj(s, n, kHeap, bUninit); writeBytes(s, C(addrOf(id)), m, b, "realloc"); s.mem.del(p >> 32); setRet(s, I, C(addrOf(id))); return true;
}
static bool nMempcpy(State& s, Ins& I, V* a) { nMemcpy(s, I, a); u64 n = concSize(s, a[2], "x"); setRet(s, I, VE(xAdd(E(a[0], 64), mkConst(n, 64)))); return true; }
static bool nMemset(State& s, Ins& I, V* a) {
  u64 n = concSize(s, a[2], "memset size"); if (n > (1ULL << 28)) { killErr(s, "out-of-bounds", "memset of huge size"); }
  V v = a[1]; if (v.e) v = VE(xExtract(simp(s, v.e), 0, 8)); else v.c &= 255;
  if (n) {
    V off; Obj* o = resolve(s, a[0], n, true, off, "memset");
    if (!off.e) { o = s.mem.w(o->id); growObj(o, off.c + n); if (!v.e) { memset(o->data + off.c, v.c, n); memset(o->stt + off.c, 0, n); } else for (u64 i = 0; i < n; i++) storeByte(o, off.c + i, v.e); }
    else { BV_ b; b.d.assign(n, v.e ? 0 : v.c); b.t.assign(n, v.e ? bSym : bConc); if (v.e) b.e.assign(n, v.e); writeBytes(s, a[0], n, b, "memset"); }
  }
  setRet(s, I, a[0]); return true;
}
static bool nMemcmp(State& s, Ins& I, V* a) {
  u64 n = concSize(s, a[2], "memcmp size"); BV_ x, y; readBytes(s, a[0], n, x, false, "memcmp"); readBytes(s, a[1], n, y, false, "memcmp");
  auto B = [](BV_& b, u64 i) { return b.t[i] == bSym ? b.e[i] : mkConst(b.d[i], 8); };
  // result sign: fold from the end
  Expr* r = mkConst(0, 32); Expr* eq = mkConst(1, 1); Expr* lt = mkConst(0, 1);
  for (u64 i = n; i-- > 0;) { Expr *p = B(x, i), *q = B(y, i); Expr* e = xEq(p, q); lt = xIte(e, lt, xUlt(p, q)); eq = xAnd(e, eq); if (isFalse(e)) { } }
  r = xIte(eq, mkConst(0, 32), xIte(lt, mkConst(~0ULL, 32), mkConst(1, 32)));
  setRet(s, I, VE(simp(s, r))); return true;
}
static bool nStrlen(State& s, Ins& I, V* a) {
  u64 p = concretize(s, a[0], 64, "strlen"); u64 n = 0;
  for (;; n++) { V v = doLoad(s, C(p + n), 8); if (v.e) { Expr* z = simp(s, xEq(v.e, mkConst(0, 8))); bool zero = branch(s, VE(z), [](State&, bool) {}); if (zero) break; } else if (!v.c) break; }
  setRet(s, I, C(n)); return true;
}
static bool nMemchr(State& s, Ins& I, V* a) {
  u64 n = concSize(s, a[2], "memchr size"); BV_ b; u64 p = concretize(s, a[0], 64, "memchr"); Expr* ch = xExtract(E(a[1], 32), 0, 8);
  Expr* r = mkConst(0, 64);
  // lazily sized reads: memchr may be given a length beyond the object only if a match occurs earlier; require full range
  readBytes(s, C(p), n, b, false, "memchr");
  for (u64 i = n; i-- > 0;) { Expr* x = b.t[i] == bSym ? b.e[i] : mkConst(b.d[i], 8); r = xIte(xEq(x, ch), mkConst(p + i, 64), r); }
  setRet(s, I, VE(simp(s, r))); return true;
}
static bool nRet0(State& s, Ins& I, V*) { setRet(s, I, C(0)); return true; }
static bool nRetArg0(State& s, Ins& I, V* a) { setRet(s, I, argc_(I, 1) ? a[0] : C(0)); return true; }
static bool nNop(State& s, Ins& I, V*) { for (int i = 0; i < I.n && I.dst >= 0; i++) s.fr.back().r[I.dst + i] = C(0); return true; }
static bool nThrow(State& s, Ins& I, V*) { killErr(s, "uncaught-exception", demangle(I.cf->getName().str()) + " (exception terminates the program)"); return false; }
static bool nAbort(State& s, Ins& I, V*) { killErr(s, "abort", demangle(I.cf->getName().str())); return false; }
static void finishPath(State& s, const char* how);
static bool nExit(State& s, Ins& I, V* a) { if (s.allowExit) { finishPath(s, "exit"); throw Kill(); } killErr(s, "exit", "process exit requested by library"); return false; }
static bool nUbsan(State& s, Ins& I, V* a) { killErr(s, "undefined-behaviour", "UBSan check failed (kind " + std::to_string(a[0].c) + ")"); return false; }
static bool nOpaqueOstream(State& s, Ins& I, V* a) { setRet(s, I, a[0]); return true; }

// ---- harness API ----
static bool vsSym(State& s, Ins& I, V* a) {
  std::string nm = cstr(s, a[0]); u64 bits = a[1].c; unsigned w = bits;
  Expr* y = freshSym(s, w, nm); s.in.push_back({nameId(nm), (u8)w, V{y, 0}}); s.cells["symn"]++;
  Expr* r = w < 64 ? xZExt(y, 64) : y; setRet(s, I, V{r, 0}); return true;
}
static bool vsBytes(State& s, Ins& I, V* a) { // vs_bytes(ptr,n,name)
  u64 n = concSize(s, a[1], "vs_bytes"); std::string nm = cstr(s, a[2]); BV_ b; b.d.assign(n, 0); b.t.assign(n, bSym); b.e.resize(n);
  for (u64 i = 0; i < n; i++) { Expr* y = freshSym(s, 8, nm + std::to_string(i)); b.e[i] = y; s.in.push_back({nameId(nm + std::to_string(i)), 8, V{y, 0}}); }
  writeBytes(s, a[0], n, b, "vs_bytes"); return true;
}
static bool vsAssume(State& s, Ins& I, V* a) {
  V v = a[0]; Expr* c = xNot(xEq(E(v, 32), mkConst(0, 32))); c = simp(s, c);
  if (isTrue(c)) return true;
  if (isFalse(c)) { st.pathsAssumeKilled++; throw Kill(); }
  if (!evalExpr(c, *s.wit)) {
    std::shared_ptr<Model> m; int r = query(s, c, &m);
    if (r == 0) { st.pathsAssumeKilled++; throw Kill(); } if (r < 0) { markIncomplete("solver-unknown"); throw Kill(); } s.wit = m; }
  addConstraint(s, c); return true;
}
static bool vsAssert(State& s, Ins& I, V* a) {
  Expr* c = xNot(xEq(E(a[0], 32), mkConst(0, 32))); st.asserts++;
  c = simp(s, c); if (isTrue(c)) { st.assertsTriv++; return true; }
  std::string m = cstr(s, a[1]); require(s, c, "assert", m); return true;
}
static bool vsChoose(State& s, Ins& I, V* a) {
  u64 n = concSize(s, a[0], "vs_choose"); std::string nm = cstr(s, a[1]);
  u32 id = nameId(nm);
  for (u64 i = n; i-- > 1;) { State* x = forkState(s); x->in.push_back({id, 32, C(i)}); x->fr.back().r[I.dst] = C(i); x->fr.back().pc++; work.push_back(x); }
  s.in.push_back({id, 32, C(0)}); setRet(s, I, C(0)); return true;
}
static bool vsParam(State& s, Ins& I, V* a) { std::string nm = cstr(s, a[0]); u64 d = a[1].c; auto it = optParams.find(nm); setRet(s, I, C(it == optParams.end() ? d : (u64)it->second)); return true; }
static bool vsReach(State& s, Ins& I, V* a) { std::string nm = cstr(s, a[0]); reached.insert(nm); reachCount[nm]++; return true; }
static bool vsObserve(State& s, Ins& I, V* a) { s.obs.push_back({argS(s, a[0]), 64}); return true; }
static bool vsAllowExit(State& s, Ins& I, V* a) { s.allowExit = a[0].c; return true; }
static bool vsConc(State& s, Ins& I, V* a) { u64 v = concretize(s, a[0], 64, "vs_concretize"); setRet(s, I, C(v)); return true; }
static bool vsIsSymbolic(State& s, Ins& I, V* a) { setRet(s, I, C(1)); return true; }
static bool vsFail(State& s, Ins& I, V* a) { st.asserts++; std::string m = cstr(s, a[0]); killErr(s, "assert", m); return false; }
static bool vsAllocLimit(State& s, Ins& I, V* a) { if (a[0].c) s.cells["alloc_limit"] = a[0].c; else s.cells.erase("alloc_limit"); return true; }
static bool vsHeap(State& s, Ins& I, V* a) { setRet(s, I, C(s.cells["heap"])); return true; }
static bool vsBudget(State& s, Ins& I, V* a) { s.cells["budget"] = s.instrs + a[0].c; return true; }
static bool vsDump(State& s, Ins& I, V* a) { V v = argS(s, a[1]); fprintf(stderr, "dump %s = %s\n", cstr(s, a[0]).c_str(), v.e ? exprStr(v.e, 10).c_str() : std::to_string(v.c).c_str()); return true; }

// snprintf (concretising, except %04x of a small symbolic value)
static bool nSnprintf_(State& s, Ins& I, V* a, bool bounded);
static bool nSnprintf(State& s, Ins& I, V* a) { return nSnprintf_(s, I, a, true); }
static bool nSprintf(State& s, Ins& I, V* a) { return nSnprintf_(s, I, a, false); }
static bool nSnprintf_(State& s, Ins& I, V* a, bool bounded) {
  u64 cap = bounded ? concSize(s, a[1], "snprintf") : 1 << 20; std::string f = cstr(s, a[bounded ? 2 : 1]); size_t ai = bounded ? 3 : 2; std::vector<Expr*> out;
  auto putS = [&](const std::string& t) { for (char c : t) out.push_back(mkConst((u8)c, 8)); };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out.push_back(mkConst((u8)f[i], 8)); continue; }
    if (f[i + 1] == '%') { out.push_back(mkConst('%', 8)); i++; continue; }
    std::string sp = "%"; size_t j = i + 1; while (j < f.size() && strchr("0123456789.-+ #", f[j])) sp += f[j++];
    std::string lenm; while (j < f.size() && strchr("hlzjt", f[j])) lenm += f[j++];
    char cv = f[j]; i = j; V v = argS(s, a[ai++]); bool is64 = lenm.find('l') != std::string::npos || lenm == "z" || lenm == "j" || lenm == "t";
    char buf[256];
    if (cv == 's') { putS(cstr(s, v)); continue; }
    if ((cv == 'x' || cv == 'X') && v.e && (sp == "%02" || sp == "%04") ) {
      unsigned w = is64 ? 64 : 32; Expr* e = v.e; if (lenm == "hh") e = xZExt(xExtract(e, 0, 8), w);
      int nd = sp[2] - '0';
      if (e->hi <= maskw(4 * nd)) { for (int d = nd - 1; d >= 0; d--) { Expr* h = xZExt(xExtract(e, 4 * d, 4), 8); out.push_back(xIte(xUlt(h, mkConst(10, 8)), xAdd(h, mkConst('0', 8)), xAdd(h, mkConst((cv == 'x' ? 'a' : 'A') - 10, 8)))); } continue; }
    }
    u64 x = concretize(s, v, 64, "snprintf arg");
    if (cv == 'd' || cv == 'i') { if (!is64) x = (u64)(i64)(int)x; snprintf(buf, sizeof buf, (sp + "lld").c_str(), (long long)x); putS(buf); }
    else if (cv == 'u' || cv == 'x' || cv == 'X') { if (!is64) x = (u32)x; if (lenm == "hh") x &= 255; snprintf(buf, sizeof buf, (sp + "ll" + cv).c_str(), (unsigned long long)x); putS(buf); }
    else if (cv == 'c') out.push_back(mkConst(x & 255, 8));
    else if (cv == 'f' || cv == 'g') { double d; memcpy(&d, &x, 8); snprintf(buf, sizeof buf, (sp + cv).c_str(), d); putS(buf); }
    else if (cv == 'p') { putS("0xPTR"); }
    else killErr(s, "unmodelled", "snprintf conversion " + sp + lenm + cv);
  }
  if (cap) { u64 n = std::min<u64>(out.size(), cap - 1); BV_ b; b.d.assign(n + 1, 0); b.t.assign(n + 1, 0); b.e.assign(n + 1, nullptr);
    for (u64 k = 0; k < n; k++) if (out[k]->op == oConst) b.d[k] = out[k]->c; else { b.t[k] = bSym; b.e[k] = out[k]; }
    writeBytes(s, a[0], n + 1, b, "snprintf"); }
  setRet(s, I, C(out.size())); return true;
}

static bool ovf(State& s, Ins& I, V* a, int kind, bool sgn) { // 0 add 1 sub 2 mul
  unsigned w = I.ws[0]; 
  if (!a[0].e && !a[1].e) {
    i128 x = sgn ? (i128)sextw(a[0].c, w) : (i128)a[0].c, y = sgn ? (i128)sextw(a[1].c, w) : (i128)a[1].c; 
    i128 r; bool o = false;
    if (kind == 2 && !sgn && w == 64) { u128 p = (u128)a[0].c * a[1].c; o = p > ~0ULL; r = (i128)(u64)p; }
    else { r = kind == 0 ? x + y : kind == 1 ? x - y : x * y; if (sgn) o = r != (i128)sextw((u64)r & maskw(w), w); else o = r < 0 || r > (i128)maskw(w); }
    s.fr.back().r[I.dst] = C((u64)r & maskw(w)); s.fr.back().r[I.dst + 1] = C(o); return true;
  }
  Expr *x = E(argS(s, a[0]), w), *y = E(argS(s, a[1]), w); Expr* r = kind == 0 ? xAdd(x, y) : kind == 1 ? xSub(x, y) : xMul(x, y); Expr* o;
  if (w < 64 && (kind != 2 || w <= 32)) {
    unsigned W = kind == 2 ? 64 : std::min(64u, w * 2 < w + 2 ? w + 2 : w * 2 > 64 ? 64 : w * 2);
    Expr *X = sgn ? xSExt(x, W) : xZExt(x, W), *Y = sgn ? xSExt(y, W) : xZExt(y, W); Expr* R = kind == 0 ? xAdd(X, Y) : kind == 1 ? xSub(X, Y) : xMul(X, Y);
    o = xNot(xEq(R, sgn ? xSExt(xExtract(R, 0, w), W) : xZExt(xExtract(R, 0, w), W)));
    // interval shortcut
    if (!sgn && kind != 1 && R->hi <= maskw(w)) o = mkConst(0, 1);
  } else if (kind == 0) {
    if (!sgn) o = ((u128)x->hi + y->hi <= maskw(w)) ? mkConst(0, 1) : xUlt(r, x);
    else { Expr* z = mkConst(0, w); Expr *nx = xSlt(x, z), *ny = xSlt(y, z), *nr = xSlt(r, z); o = xAnd(xEq(nx, ny), xXor(nx, nr)); if (x->hi < (1ULL << (w - 2)) && y->hi < (1ULL << (w - 2))) o = mkConst(0, 1); }
  } else if (kind == 1) {
    if (!sgn) o = xUlt(x, y); else { Expr* z = mkConst(0, w); Expr *nx = xSlt(x, z), *ny = xSlt(y, z), *nr = xSlt(r, z); o = xAnd(xXor(nx, ny), xXor(nx, nr)); }
  } else {
    if (!sgn && (u128)x->hi * y->hi <= maskw(w)) o = mkConst(0, 1);
    else if (y->op == oConst && !sgn) o = y->c ? xUlt(mkConst(maskw(w) / y->c, w), x) : mkConst(0, 1);
    else { // via division
      Expr* z = mkConst(0, w); Expr* q = xBin(sgn ? oSDiv : oUDiv, r, y); o = xAnd(xNot(xEq(y, z)), xNot(xEq(q, x))); }
  }
  s.fr.back().r[I.dst] = VE(r); s.fr.back().r[I.dst + 1] = VE(simp(s, o)); return true;
}
static bool nIntrinsic(State& s, Ins& I, V* a) {
  unsigned w = I.ws.empty() ? 0 : I.ws[0];
  auto e = [&](int i) { return E(argS(s, a[i]), w); };
  switch (I.cf->getIntrinsicID()) {
    case Intrinsic::memcpy: return nMemcpyStrict(s, I, a);
    case Intrinsic::memmove: case Intrinsic::memcpy_inline: return nMemcpy(s, I, a);
    case Intrinsic::memset: case Intrinsic::memset_inline: return nMemset(s, I, a);
    case Intrinsic::umax: { Expr *x = e(0), *y = e(1); setRet(s, I, VE(xIte(xUlt(x, y), y, x))); return true; }
    case Intrinsic::umin: { Expr *x = e(0), *y = e(1); setRet(s, I, VE(xIte(xUlt(x, y), x, y))); return true; }
    case Intrinsic::smax: { Expr *x = e(0), *y = e(1); setRet(s, I, VE(xIte(xSlt(x, y), y, x))); return true; }
    case Intrinsic::smin: { Expr *x = e(0), *y = e(1); setRet(s, I, VE(xIte(xSlt(x, y), x, y))); return true; }
    case Intrinsic::abs: { Expr* x = e(0); setRet(s, I, VE(xIte(xSlt(x, mkConst(0, w)), xSub(mkConst(0, w), x), x))); return true; }
    case Intrinsic::usub_sat: { Expr *x = e(0), *y = e(1); setRet(s, I, VE(xIte(xUlt(x, y), mkConst(0, w), xSub(x, y)))); return true; }
    case Intrinsic::uadd_sat: { Expr *x = e(0), *y = e(1); Expr* r = xAdd(x, y); setRet(s, I, VE(xIte(xUlt(r, x), mkConst(~0ULL, w), r))); return true; }
    case Intrinsic::uadd_with_overflow: return ovf(s, I, a, 0, false);
    case Intrinsic::sadd_with_overflow: return ovf(s, I, a, 0, true);
    case Intrinsic::usub_with_overflow: return ovf(s, I, a, 1, false);
    case Intrinsic::ssub_with_overflow: return ovf(s, I, a, 1, true);
    case Intrinsic::umul_with_overflow: return ovf(s, I, a, 2, false);
    case Intrinsic::smul_with_overflow: return ovf(s, I, a, 2, true);
    case Intrinsic::fshl: case Intrinsic::fshr: {
      u64 sh = concretize(s, a[2], w, "fsh") % w; if (I.cf->getIntrinsicID() == Intrinsic::fshr) sh = (w - sh) % w;
      Expr *x = e(0), *y = e(1); if (sh == 0) { setRet(s, I, VE(I.cf->getIntrinsicID() == Intrinsic::fshl ? x : y)); return true; }
      setRet(s, I, VE(xOr(xBin(oShl, x, mkConst(sh, w)), xBin(oLShr, y, mkConst(w - sh, w))))); return true; }
    case Intrinsic::ctlz: { Expr* x = e(0); Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = xIte(xExtract(x, i, 1), mkConst(w - 1 - i, w), r); setRet(s, I, VE(r)); return true; }
    case Intrinsic::cttz: { Expr* x = e(0); Expr* r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = xIte(xExtract(x, i, 1), mkConst(i, w), r); setRet(s, I, VE(r)); return true; }
    case Intrinsic::ctpop: { Expr* x = e(0); Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = xAdd(r, xZExt(xExtract(x, i, 1), w)); setRet(s, I, VE(r)); return true; }
    case Intrinsic::bswap: { Expr* x = e(0); Expr* r = mkConst(0, w); for (unsigned i = 0; i < w / 8; i++) r = xAdd(r, xMulC(xZExt(xExtract(x, 8 * i, 8), w), 1ULL << (w - 8 - 8 * i))); setRet(s, I, VE(r)); return true; }
    case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: setRet(s, I, a[0]); return true;
    case Intrinsic::is_constant: setRet(s, I, C(0)); return true;
    case Intrinsic::objectsize: setRet(s, I, C(maskw(w))); return true;
    case Intrinsic::stacksave: setRet(s, I, C(0)); return true;
    case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: setRet(s, I, C(0)); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: killErr(s, "trap", "llvm.trap reached"); return false;
    case Intrinsic::ubsantrap: return nUbsan(s, I, a);
    case Intrinsic::eh_typeid_for: setRet(s, I, C(0)); return true;
    default: killErr(s, "unmodelled", "intrinsic " + I.cf->getName().str()); return false;
  }
}
static std::map<std::string, Native> nativeTab;
static bool isStreamFn(const std::string& n) {
  static const char* pre[] = {"_ZNSo", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZNSolsE", "_ZNKSt9basic_ios", "_ZNSt9basic_ios", "_ZNSt8ios_base", "_ZNSt13basic_ostream", "_ZSt4ends"};
  for (auto p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
  return false;
}
static Native findNative(Fn* f) {
  if (f->natChecked) return f->nat; f->natChecked = true;
  if (f->f->isIntrinsic()) return f->nat = nIntrinsic;
  auto it = nativeTab.find(f->name); if (it != nativeTab.end()) return f->nat = it->second;
  if (isStreamFn(f->name)) return f->nat = nOpaqueOstream;
  if (f->isDecl) { if (f->name.find("__throw") != std::string::npos) return f->nat = nThrow; }
  return nullptr;
}
static void setupNatives() {
  auto& t = nativeTab;
  for (auto n : {"malloc", "_Znwm", "_Znam"}) t[n] = nMalloc;
  t["_ZnwmRKSt9nothrow_t"] = nMalloc; t["_ZnamRKSt9nothrow_t"] = nMalloc; t["calloc"] = nCalloc;
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"}) t[n] = nFree;
  t["memcpy"] = nMemcpyStrict; t["memmove"] = nMemcpy; t["realloc"] = nRealloc; t["sprintf"] = nSprintf; t["mempcpy"] = nMempcpy; t["memset"] = nMemset; t["memcmp"] = t["bcmp"] = nMemcmp; t["strlen"] = nStrlen; t["memchr"] = nMemchr;
  t["__cxa_atexit"] = nRet0; t["atexit"] = nRet0; t["_ZNSt8ios_base4InitC1Ev"] = nNop; t["_ZNSt8ios_base4InitD1Ev"] = nNop; t["__cxa_guard_acquire"] = nullptr;
  t.erase("__cxa_guard_acquire");
  t["__cxa_throw"] = nThrow; t["__cxa_pure_virtual"] = nAbort; t["abort"] = nAbort; t["_ZSt9terminatev"] = nAbort; t["__assert_fail"] = nAbort; t["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = nAbort;
  t["exit"] = nExit; t["_exit"] = nExit;
  t["snprintf"] = nSnprintf;
  t["vs_sym"] = vsSym; t["vs_bytes"] = vsBytes; t["vs_assume"] = vsAssume; t["vs_assert_"] = vsAssert; t["vs_choose_"] = vsChoose; t["vs_param"] = vsParam; t["vs_reach"] = vsReach;
  t["vs_observe"] = vsObserve; t["vs_allow_exit"] = vsAllowExit; t["vs_concretize"] = vsConc; t["vs_is_symbolic"] = vsIsSymbolic; t["vs_fail"] = vsFail; t["vs_budget"] = vsBudget; t["vs_alloc_limit"] = vsAllocLimit; t["vs_heap"] = vsHeap; t["vs_dump"] = vsDump;
}

// =================== interpreter ===================
static u64 pathNo = 0, sampled = 0;
static void finishPath(State& s, const char* how) {
  pathNo++; if (!strcmp(how, "exit")) st.pathsExit++; else st.pathsOk++;
  bool samp = pathNo <= 3 || (pathNo & (pathNo - 1)) == 0 || (pathNo % 997) == 0;
  if (samp && sampled < (u64)optSample) { sampled++; fprintf(resF, "{\"t\":\"path\",\"how\":\"%s\",\"instrs\":%llu,\"depth\":%zu,", how, (unsigned long long)s.instrs, s.pc.size()); writeVals(s, resF); fprintf(resF, "}\n"); }
}
static void pushFrame(State& s, Fn* fn, const V* args, size_t n, int ret, u8 retN) {
  if (!fn->decoded) decode(fn);
  fn->executed = true;
  s.fr.emplace_back(); Frame& f = s.fr.back(); f.fn = fn; f.pc = 0; f.ret = ret; f.retN = retN; f.r.assign(fn->nregs, C(0));
  for (size_t i = 0; i < n && i < fn->argSlots.size(); i++) f.r[fn->argSlots[i]] = args[i];
}
static inline void takeEdge(State& s, Frame& f, const Edge& e) {
  if (e.copies.size() == 1) { Opd o = e.copies[0].second; f.r[e.copies[0].first] = o >= 0 ? f.r[o] : f.fn->pool[~o]; }
  else if (!e.copies.empty()) { V tmp[64]; std::vector<V> big; V* t = tmp; size_t n = e.copies.size(); if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { Opd o = e.copies[i].second; t[i] = o >= 0 ? f.r[o] : f.fn->pool[~o]; }
    for (size_t i = 0; i < n; i++) f.r[e.copies[i].first] = t[i]; }
  f.pc = e.target;
}
static Expr* cmpExpr(int pred, Expr* x, Expr* y) {
  switch (pred) {
    case CmpInst::ICMP_EQ: return xEq(x, y); case CmpInst::ICMP_NE: return xNot(xEq(x, y));
    case CmpInst::ICMP_ULT: return xUlt(x, y); case CmpInst::ICMP_UGT: return xUlt(y, x); case CmpInst::ICMP_ULE: return xNot(xUlt(y, x)); case CmpInst::ICMP_UGE: return xNot(xUlt(x, y));
    case CmpInst::ICMP_SLT: return xSlt(x, y); case CmpInst::ICMP_SGT: return xSlt(y, x); case CmpInst::ICMP_SLE: return xNot(xSlt(y, x)); default: return xNot(xSlt(x, y));
  }
}
static double fget(u64 v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; u32 x = v; memcpy(&f, &x, 4); return f; }
static u64 fput(double d, unsigned w) { if (w == 64) { u64 v; memcpy(&v, &d, 8); return v; } float f = d; u32 x; memcpy(&x, &f, 4); return x; }

static bool trySplit();
static double lastCheck = 0;
static bool overBudget = false;
static bool timeCheck() {
  if (run->stop) { return true; }
  double t = now(); if (u64 e = run->errDeadline) if (t * 1000 > e) { run->stop = 1; return true; }
  if (t > tDeadline) { if (!overBudget) { overBudget = true; markIncomplete("time-budget"); } return true; }
  return false;
}

// Runs state until it ends. Deletes it.
static void runState(State* sp) {
  State& s = *sp; cur = sp; u64 tick = 0;
  try {
    for (;;) {
      Frame& f = s.fr.back(); Ins& I = f.fn->code[f.pc]; V* r = f.r.data(); const V* P = f.fn->pool.data();
      auto G = [&](Opd o) -> V { return o >= 0 ? r[o] : P[~o]; };
      s.instrs++; st.instrs++;
      if (s.instrs > optMaxInstr) { killErr(s, "hang", "path exceeds the instruction limit (non-termination suspected)"); }
      if ((++tick & 0xfff) == 0) {
        auto bi = s.cells.find("budget"); if (bi != s.cells.end() && s.instrs > bi->second) killErr(s, "hang", "operation exceeds its instruction budget (non-termination suspected)");
        if ((tick & 0xffff) == 0 && timeCheck()) { if (!run->stop) markIncomplete("time-budget"); throw Kill(); }
      }
      switch (I.op) {
        case iAdd: { V a = G(I.a), b = G(I.b); r[I.dst] = (!a.e && !b.e) ? C((a.c + b.c) & maskw(I.w)) : VE(xAdd(E(a, I.w), E(b, I.w))); f.pc++; break; }
        case iSub: { V a = G(I.a), b = G(I.b); r[I.dst] = (!a.e && !b.e) ? C((a.c - b.c) & maskw(I.w)) : VE(xSub(E(a, I.w), E(b, I.w))); f.pc++; break; }
        case iBin: {
          V a = G(I.a), b = G(I.b);
          if (I.sub >= oUDiv && I.sub <= oSRem) { Expr* nz = xNot(xEq(E(b, I.w), mkConst(0, I.w))); require(s, nz, "division-by-zero", "integer division by zero"); }
          r[I.dst] = (!a.e && !b.e) ? C(evalOp((Op)I.sub, I.w, a.c, b.c)) : VE(xBin((Op)I.sub, E(a, I.w), E(b, I.w))); f.pc++; break; }
        case iCmp: {
          V a = G(I.a), b = G(I.b);
          if (!a.e && !b.e) {
            u64 x = a.c, y = b.c; i64 X = sextw(x, I.srcw), Y = sextw(y, I.srcw); bool v;
            switch (I.sub) { case CmpInst::ICMP_EQ: v = x == y; break; case CmpInst::ICMP_NE: v = x != y; break; case CmpInst::ICMP_ULT: v = x < y; break; case CmpInst::ICMP_UGT: v = x > y; break; case CmpInst::ICMP_ULE: v = x <= y; break; case CmpInst::ICMP_UGE: v = x >= y; break; case CmpInst::ICMP_SLT: v = X < Y; break; case CmpInst::ICMP_SGT: v = X > Y; break; case CmpInst::ICMP_SLE: v = X <= Y; break; default: v = X >= Y; }
            r[I.dst] = C(v);
          } else r[I.dst] = VE(cmpExpr(I.sub, E(a, I.srcw), E(b, I.srcw)));
          f.pc++; break; }
        case iLoad: { V p = G(I.a); 
          if (I.ws.size() == 1 && I.offs[0] == 0) { V v = doLoad(s, p, I.ws[0]); r[I.dst] = v; }
          else for (size_t i = 0; i < I.ws.size(); i++) { V q = p.e ? VE(xAdd(p.e, mkConst(I.offs[i], 64))) : C(p.c + I.offs[i]); V v = doLoad(s, q, I.ws[i]); r[I.dst + i] = v; }
          f.pc++; break; }
        case iStore: { V p = G(I.a); 
          for (size_t i = 0; i < I.ws.size(); i++) { V q = p.e ? VE(xAdd(p.e, mkConst(I.offs[i], 64))) : C(p.c + I.offs[i]); doStore(s, q, G(I.ops[i]), I.ws[i]); }
          f.pc++; break; }
        case iGep: {
          V p = G(I.a); bool conc = !p.e; u64 cacc = p.c + I.off; Expr* e = p.e; if (e) cacc = I.off;
          for (auto& x : I.idx) { V v = G(x.o); if (!v.e) cacc += (u64)(sextw(v.c, x.w) * x.scale); else { conc = false; Expr* t = xMulC(xSExt(v.e, 64), (u64)x.scale); e = e ? xAdd(e, t) : t; } }
          r[I.dst] = conc ? C(cacc) : VE(xAdd(e, mkConst(cacc, 64))); f.pc++; break; }
        case iZExt: { V a = G(I.a); r[I.dst] = a.e ? VE(xZExt(a.e, I.w)) : a; f.pc++; break; }
        case iSExt: { V a = G(I.a); r[I.dst] = a.e ? VE(xSExt(a.e, I.w)) : C((u64)sextw(a.c, I.srcw) & maskw(I.w)); f.pc++; break; }
        case iTrunc: { V a = G(I.a); r[I.dst] = a.e ? VE(xExtract(a.e, 0, I.w)) : C(a.c & maskw(I.w)); f.pc++; break; }
        case iMove: r[I.dst] = G(I.a); f.pc++; break;
        case iInsert: { if (I.ops.size() == 1) r[I.dst] = G(I.ops[0]); else { V t[80]; size_t n = std::min<size_t>(I.ops.size(), 80); for (size_t i = 0; i < n; i++) t[i] = G(I.ops[i]); for (size_t i = 0; i < n; i++) r[I.dst + i] = t[i]; } f.pc++; break; }
        case iSelect: {
          V c = G(I.a); if (c.e) c = VE(simp(s, c.e));
          for (size_t i = 0; i < I.ws.size(); i++) { V t = G(I.ops[2 * i]), e = G(I.ops[2 * i + 1]); r[I.dst + i] = !c.e ? ((c.c & 1) ? t : e) : VE(xIte(c.e, E(t, I.ws[i]), E(e, I.ws[i]))); }
          f.pc++; break; }
        case iAlloca: { u64 n = concretize(s, G(I.a), 64, "alloca"); u32 id = allocObj(s, n * I.size, kStack, bUninit); f.allocas.push_back(id); r[I.dst] = C(addrOf(id)); f.pc++; break; }
        case iBr: takeEdge(s, f, I.edges[0]); break;
        case iCondBr: {
          V c = G(I.a);
          bool side = branch(s, c, [&](State& n, bool sd) { Frame& nf = n.fr.back(); takeEdge(n, nf, nf.fn->code[nf.pc].edges[sd ? 0 : 1]); });
          takeEdge(s, f, I.edges[side ? 0 : 1]);
          if (c.e && (work.size() >= 3)) trySplit();
          break; }
        case iSwitch: {
          V c = argS(s, G(I.a));
          if (!c.e) { int ed = 0; for (auto& k : I.cases) if (k.first == (c.c & maskw(I.srcw))) { ed = k.second; break; } takeEdge(s, f, I.edges[ed]); break; }
          // conditions per edge
          std::vector<Expr*> cond(I.edges.size(), mkConst(0, 1)); Expr* any = mkConst(0, 1);
          for (auto& k : I.cases) { Expr* q = xEq(c.e, mkConst(k.first, I.srcw)); cond[k.second] = xOr(cond[k.second], q); any = xOr(any, q); }
          cond[0] = xOr(cond[0], xNot(any)); // default (edges[0] may also be a case target via separate edge)
          int mine = -1; for (size_t i = 0; i < cond.size(); i++) { cond[i] = simp(s, cond[i]); if (mine < 0 && evalExpr(cond[i], *s.wit)) mine = i; }
          st.branchSym++; bool other = false;
          for (size_t i = 0; i < cond.size(); i++) { if ((int)i == mine) continue; std::shared_ptr<Model> m; int q = query(s, cond[i], &m); if (q < 0) markIncomplete("solver-unknown"); if (q == 1) { State* n = forkState(s); n->wit = m; addConstraint(*n, cond[i]); Frame& nf = n->fr.back(); takeEdge(*n, nf, nf.fn->code[nf.pc].edges[i]); work.push_back(n); other = true; } }
          if (mine < 0) throw Kill();
          if (other) addConstraint(s, cond[mine]); else learn(s, cond[mine]);
          takeEdge(s, f, I.edges[mine]); break; }
        case iRet: {
          V rv[16]; size_t n = std::min<size_t>(I.ops.size(), 16); for (size_t i = 0; i < n; i++) rv[i] = G(I.ops[i]);
          for (u32 id : f.allocas) s.mem.del(id);
          int ret = f.ret; u8 rn = f.retN; s.fr.pop_back();
          if (s.fr.empty()) { finishPath(s, "ok"); throw Kill(); }
          Frame& c = s.fr.back(); for (size_t i = 0; i < n && i < rn; i++) if (ret >= 0) c.r[ret + i] = rv[i];
          break; }
        case iCall: {
          Fn* fn = I.callee;
          if (!fn) { u64 p = concretize(s, G(I.a), 64, "indirect call"); auto it = fnByAddr.find(p); if (it == fnByAddr.end()) killErr(s, p == 0 ? "null-deref" : "wild-call", "indirect call through invalid pointer"); fn = it->second; }
          V ab[32]; std::vector<V> big; V* args = ab; if (I.ops.size() > 32) { big.resize(I.ops.size()); args = big.data(); }
          for (size_t i = 0; i < I.ops.size(); i++) args[i] = G(I.ops[i]);
          Native nat = findNative(fn);
          if (nat) { Function* save = I.cf; if (!I.cf) { Ins J = I; J.cf = fn->f; if (nat(s, J, args)) s.fr.back().pc++; } else if (nat(s, I, args)) s.fr.back().pc++; (void)save; break; }
          if (fn->isDecl) killErr(s, "unmodelled", "call to external function " + demangle(fn->name));
          if (s.fr.size() > optDepth) killErr(s, "stack-overflow", "call depth limit");
          for (size_t i = 0; i < I.ops.size(); i++) if (I.byval[i]) { BV_ b; readBytes(s, args[i], I.byval[i], b, true, "byval"); u32 id = allocObj(s, I.byval[i], kStack, bUninit); writeBytes(s, C(addrOf(id)), I.byval[i], b, "byval"); args[i] = C(addrOf(id)); }
          f.pc++; pushFrame(s, fn, args, I.ops.size(), I.dst, I.n); break; }
        case iUnreach: killErr(s, "unreachable", "unreachable instruction executed"); break;
        case iFNeg: { u64 x = concretize(s, G(I.a), I.w, "fp"); r[I.dst] = C(fput(-fget(x, I.w), I.w)); f.pc++; break; }
        case iFBin: { double x = fget(concretize(s, G(I.a), I.w, "fp"), I.w), y = fget(concretize(s, G(I.b), I.w, "fp"), I.w), z = 0; switch (I.sub) { case 0: z = x + y; break; case 1: z = x - y; break; case 2: z = x * y; break; case 3: z = x / y; break; default: killErr(s, "unmodelled", "frem"); } r[I.dst] = C(fput(z, I.w)); f.pc++; break; }
        case iFCmp: { double x = fget(concretize(s, G(I.a), I.srcw, "fp"), I.srcw), y = fget(concretize(s, G(I.b), I.srcw, "fp"), I.srcw); bool u = x != x || y != y, v;
          switch (I.sub) { case FCmpInst::FCMP_OEQ: v = x == y; break; case FCmpInst::FCMP_ONE: v = !u && x != y; break; case FCmpInst::FCMP_UNE: v = x != y; break; case FCmpInst::FCMP_OLT: v = x < y; break; case FCmpInst::FCMP_OLE: v = x <= y; break; case FCmpInst::FCMP_OGT: v = x > y; break; case FCmpInst::FCMP_OGE: v = x >= y; break; case FCmpInst::FCMP_ULT: v = u || x < y; break; case FCmpInst::FCMP_ULE: v = u || x <= y; break; case FCmpInst::FCMP_UGT: v = u || x > y; break; case FCmpInst::FCMP_UGE: v = u || x >= y; break; case FCmpInst::FCMP_UNO: v = u; break; case FCmpInst::FCMP_ORD: v = !u; break; case FCmpInst::FCMP_UEQ: v = u || x == y; break; default: v = false; }
          r[I.dst] = C(v); f.pc++; break; }
        case iFCast: { u64 x = concretize(s, G(I.a), I.srcw, "fp"); u64 o = 0; switch (I.c) { case Instruction::SIToFP: o = fput((double)sextw(x, I.srcw), I.w); break; case Instruction::UIToFP: o = fput((double)x, I.w); break; case Instruction::FPToSI: o = (u64)(i64)fget(x, I.srcw) & maskw(I.w); break; case Instruction::FPToUI: o = (u64)fget(x, I.srcw) & maskw(I.w); break; default: o = fput(fget(x, I.srcw), I.w); } r[I.dst] = C(o); f.pc++; break; }
        case iUnsup: killErr(s, "unmodelled", "unsupported instruction " + I.msg); break;
        default: killErr(s, "unmodelled", "bad opcode"); break;
      }
    }
  } catch (Kill&) {}
  delete sp; cur = nullptr;
}

// =================== process management ===================
static bool isRoot = true;
static void releaseSlot() { shm->slots++; }
static bool acquireSlot() { int v = shm->slots.load(); while (v > 0) if (shm->slots.compare_exchange_weak(v, v - 1)) return true; return false; }
static double lastSplit = 0; static std::vector<State*>* protectedState = nullptr;
static bool trySplit() {
  if (shm->slots.load(std::memory_order_relaxed) <= 0 || shm->waiting.load(std::memory_order_relaxed) > 0) return false;
  static unsigned cnt = 0; if ((++cnt & 15) != 0) return false;
  double t = now(); if (t - lastSplit < 0.1) return false;
  if (work.size() < 3 || !acquireSlot()) return false;
  lastSplit = t; fflush(resF); run->nstarted++;
  pid_t p = fork();
  if (p < 0) { run->nstarted--; releaseSlot(); return false; }
  std::vector<State*> mine, theirs;
  for (size_t i = 0; i < work.size(); i++) ((i & 1) ? mine : theirs).push_back(work[i]);
  if (p == 0) {
    isRoot = false; st = Stats(); incompleteWhy.clear(); reached.clear(); reachCount.clear(); errCount = 0; sampled = 0; pathNo = 0; 
    for (Fn* f : fnList) f->executed = false;
    openRes(); lastSplit = now();
    for (State* x : mine) delete x;
    work = theirs;
    // the state currently being executed belongs to the parent: abandon it here
    throw Kill();
  }
  for (State* x : theirs) delete x;
  work = mine; return true;
}
static u64 rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (u64)b * 4096 / 1048576; }
static void writeSummary() {
  std::string fn; for (Fn* f : fnList) if (f->executed) { if (!fn.empty()) fn += ","; fn += "\"" + esc(demangle(f->name)) + "\""; }
  std::string rc; for (auto& k : reachCount) { if (!rc.empty()) rc += ","; rc += "\"" + esc(k.first) + "\":" + std::to_string(k.second); }
  std::string iw; for (auto& k : incompleteWhy) { if (!iw.empty()) iw += ","; iw += "\"" + esc(k) + "\""; }
  fprintf(resF, "{\"t\":\"done\",\"paths\":%llu,\"exits\":%llu,\"assume_killed\":%llu,\"errors\":%llu,\"instrs\":%llu,\"forks\":%llu,\"q\":%llu,\"q_sat\":%llu,\"q_unsat\":%llu,\"q_unknown\":%llu,\"q_cache\":%llu,\"q_dom\":%llu,\"q_int\":%llu,\"q_int_fail\":%llu,\"q_int_na\":%llu,\"q_time\":%.3f,\"q_max\":%.3f,\"asserts\":%llu,\"asserts_simplified\":%llu,\"branches\":%llu,\"concretized\":%llu,\"incomplete\":%llu,\"exprs\":%llu,\"wall\":%.2f,\"rss\":%llu,\"reach\":{%s},\"why\":[%s],\"functions\":[%s]}\n",
    (unsigned long long)st.pathsOk, (unsigned long long)st.pathsExit, (unsigned long long)st.pathsAssumeKilled, (unsigned long long)st.pathsErr, (unsigned long long)st.instrs, (unsigned long long)st.forks, (unsigned long long)st.q, (unsigned long long)st.qSat, (unsigned long long)st.qUnsat, (unsigned long long)st.qUnknown, (unsigned long long)st.qCache, (unsigned long long)st.qDom, (unsigned long long)st.qInt, (unsigned long long)st.qIntFail, (unsigned long long)st.qIntNA, st.qTime, st.qMax, (unsigned long long)st.asserts, (unsigned long long)st.assertsTriv, (unsigned long long)st.branchSym, (unsigned long long)st.concretized, (unsigned long long)st.incomplete, (unsigned long long)g_nexpr, now() - tStart, (unsigned long long)rssMB(), rc.c_str(), iw.c_str(), fn.c_str());
  fflush(resF);
}
static void explore() {
  u64 it = 0;
  while (!work.empty()) {
    if (timeCheck()) { if (!run->stop) markIncomplete("time-budget"); break; }
    if ((++it & 63) == 0 && rssMB() > optMemGB * 1024) { markIncomplete("memory-budget"); break; }
    State* s = work.back(); work.pop_back();
    runState(s);
  }
}

int main(int argc, char** argv) {
  tStart = now();
  { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rlim_t want = 2048UL << 20; if (rl.rlim_cur < want && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= want) && !getenv("VSYM_STACK")) { rl.rlim_cur = want; if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("VSYM_STACK", "1", 1); execv("/proc/self/exe", argv); } } }
  std::string bc; std::string optPrep; double optDeadline = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--slots") optSlots = nx();
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); optParams[p.substr(0, e)] = strtoll(p.c_str() + e + 1, 0, 0); }
    else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--max-instr") optMaxInstr = strtoull(nx().c_str(), 0, 0);
    else if (a == "--max-conc") optMaxConcretize = strtoull(nx().c_str(), 0, 0);
    else if (a == "--sample") optSample = atoi(nx().c_str()); else if (a == "--max-errors") optMaxErrors = atoi(nx().c_str());
    else if (a == "-v") optVerbose = true; else if (a == "--prep") optPrep = nx(); else if (a == "--mem") optMemGB = atof(nx().c_str()); else if (a == "--int") optInt = atoi(nx().c_str()); else if (a == "--split-tab") optSplitTab = atoi(nx().c_str()); else if (a == "--deadline") optDeadline = atof(nx().c_str());
    else bc = a;
  }
  tDeadline = tStart + optTime;
  exprInit(); initZ3(); setupNatives();
  LC = new LLVMContext; SMDiagnostic err; std::unique_ptr<Module> mod = parseIRFile(bc, err, *LC);
  if (!mod) { err.print("vsym", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  if (!optPrep.empty()) {
    // prepare: strip stream bodies, internalize, optimise, write
    for (auto& F : *M) if (!F.isDeclaration() && isStreamFn(F.getName().str())) { F.deleteBody(); F.setComdat(nullptr); }
    for (auto& F : *M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); }
    std::set<std::string> keep; { std::string e = optEntry; size_t p; while ((p = e.find(',')) != std::string::npos) { keep.insert(e.substr(0, p)); e = e.substr(p + 1); } keep.insert(e); }
    internalizeModule(*M, [&](const GlobalValue& g) { return keep.count(g.getName().str()) > 0; });
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; 
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb(nullptr, pto);
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager pre; pre.addPass(GlobalDCEPass()); cantFail(pb.parsePassPipeline(pre, "function(loweratomic,lowerinvoke)")); pre.run(*M, mam);
    ModulePassManager mpm = pb.buildPerModuleDefaultPipeline(OptimizationLevel::O1); mpm.run(*M, mam);
    std::error_code ec; raw_fd_ostream os(optPrep, ec); WriteBitcodeToFile(*M, os); return 0;
  }
  mkdir(optOut.c_str(), 0777);
  run = (SharedRun*)mmap(nullptr, sizeof(SharedRun), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (run) SharedRun();
  run->stop = 0; run->nstarted = 1; run->nfinished = 0; run->nerr = 0; run->errDeadline = 0;
  if (!optSlots.empty()) { int fd = open(optSlots.c_str(), O_RDWR); if (fd < 0) { perror("slots"); return 3; } shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
  else { shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (shm) Shared(); shm->slots = 0; shm->waiting = 0; }
  if (!optSlots.empty()) { shm->waiting++; while (!acquireSlot()) usleep(20000); shm->waiting--; tStart = now(); tDeadline = tStart + optTime; }
  if (optDeadline) { struct timeval tv; gettimeofday(&tv, 0); double left = optDeadline - (tv.tv_sec + tv.tv_usec * 1e-6); if (now() + left < tDeadline) tDeadline = now() + left; }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  openRes();
  // globals
  initSt = new State; State& s = *initSt; s.wit = std::make_shared<Model>(); s.wit->epoch = ++epochCtr;
  for (auto& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0; bool ext = g.isDeclaration(); if (ext && sz < 1024) sz = 1024; u32 id = allocObj(s, sz, kGlobal, bConc); gaddr[&g] = addrOf(id); }
  for (auto& g : M->globals()) if (g.hasInitializer()) { Obj* o = s.mem.w(gaddr[&g] >> 32); initGlobal(o, 0, g.getInitializer()); }
  for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer()) s.mem.w(gaddr[&g] >> 32)->ro = true;
  Function* entry = M->getFunction(optEntry); if (!entry || entry->isDeclaration()) { fprintf(stderr, "vsym: no entry %s\n", optEntry.c_str()); return 3; }
  // constructors, run in order before the entry: build a call chain by pushing frames in reverse
  std::vector<Function*> ctors;
  if (GlobalVariable* gv = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer())) { std::vector<std::pair<u64, Function*>> v; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCastsAndAliases())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); } std::stable_sort(v.begin(), v.end(), [](const std::pair<u64, Function*>& a, const std::pair<u64, Function*>& b) { return a.first < b.first; }); for (auto& p : v) ctors.push_back(p.second); }
  pushFrame(s, getFn(entry), nullptr, 0, -1, 0);
  for (size_t i = ctors.size(); i-- > 0;) pushFrame(s, getFn(ctors[i]), nullptr, 0, -1, 0);
  work.push_back(initSt);
  explore();
  writeSummary(); fclose(resF);
  run->nfinished++;
  if (!isRoot || !optSlots.empty()) releaseSlot();
  if (!isRoot) _exit(0);
  int stt; pid_t p; bool bad = false;
  while ((p = wait(&stt)) > 0 || (p < 0 && errno == EINTR)) { if (p > 0 && (!WIFEXITED(stt) || WEXITSTATUS(stt))) { bad = true; releaseSlot(); } }
  FILE* f = fopen((optOut + "/root.json").c_str(), "w"); fprintf(f, "{\"started\":%d,\"finished\":%d,\"crashed\":%d,\"wall\":%.2f}\n", run->nstarted.load(), run->nfinished.load(), bad ? 1 : 0, now() - tStart); fclose(f);
  _exit(0);
}
