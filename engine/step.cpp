#include "exec.h"
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>

void Eng::layout(Function* f, FInfo& fi) {
  ReversePostOrderTraversal<Function*> rp(f); u32 n = 1; for (auto* bb : rp) fi.blk[bb].rpo = n++;
  DominatorTree dt(*f); LoopInfo li(dt);
  for (auto& bb : *f) {
    auto& b = fi.blk[&bb]; b.join = !bb.isEntryBlock() && !bb.hasNPredecessors(1);
    vector<const BasicBlock*> l; for (Loop* x = li.getLoopFor(&bb); x; x = x->getParentLoop()) l.push_back(x->getHeader()); b.loops.assign(l.rbegin(), l.rend());
    u32 k = 0; for (auto& i : bb) fi.iidx[&i] = k++;
  }
}


void Eng::step(State& s) {
  Frame& f = s.st.back(); Instruction* I = &*f.it; curIns = I; s.sub = s.dsub = 0; s.steps++; totalSteps++;
  if (O.cov) if (const void* l = I->getDebugLoc().get(); l != lastLoc) { lastLoc = l; seenLoc.insert(l); }
  if (s.steps > O.maxSteps) throw Stop{S_CUT};
  bool cnt = counts(I); bool quiet = f.quiet;
  auto done = [&] { if (cnt && !quiet) { s.apoints++; if (O.verbose > 4) fprintf(stderr, "P %d %u %s %s\n", s.tid, s.apoints, I->getOpcodeName(), locStr(I).c_str()); } };
  switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto* a = llvm::cast<AllocaInst>(I); u64 n = DL->getTypeAllocSize(a->getAllocatedType()) * conc(s, op(s, a->getArraySize()));
      u64 p = keyed(s.tid, 's', pos(s), n, "stack(" + f.f->getName().str() + "." + a->getName().str() + ")", a->getAlign().value());
      f.allocas.push_back(p); set(s, I, Val(p)); ++f.it; break;
    }
    case Instruction::Load: { auto* l = llvm::cast<LoadInst>(I); u64 a = conc(s, op(s, l->getPointerOperand())); Val v = loadT(s, a, l->getType(), ord(l->getOrdering())); set(s, I, v); ++f.it; done(); break; }
    case Instruction::Store: { auto* st = llvm::cast<StoreInst>(I); u64 a = conc(s, op(s, st->getPointerOperand())); storeT(s, a, st->getValueOperand()->getType(), op(s, st->getValueOperand()), ord(st->getOrdering())); ++f.it; done(); break; }
    case Instruction::AtomicRMW: {
      auto* r = llvm::cast<AtomicRMWInst>(I); u64 a = conc(s, op(s, r->getPointerOperand())); Val b = op(s, r->getValOperand()); unsigned w = tw(r->getType());
      Val o = rmw(s, a, w / 8, ord(r->getOrdering()), nullptr, false, [&](const Val& old) -> std::pair<Val, Val> {
        switch (r->getOperation()) {
          case AtomicRMWInst::Xchg: return {b, Val(1)}; case AtomicRMWInst::Add: return {bin(Instruction::Add, old, b, w), Val(1)}; case AtomicRMWInst::Sub: return {bin(Instruction::Sub, old, b, w), Val(1)};
          case AtomicRMWInst::And: return {bin(Instruction::And, old, b, w), Val(1)}; case AtomicRMWInst::Or: return {bin(Instruction::Or, old, b, w), Val(1)}; case AtomicRMWInst::Xor: return {bin(Instruction::Xor, old, b, w), Val(1)};
          default: throw EngineError{"atomicrmw op"};
        }
      });
      set(s, I, o); ++f.it; done(); break;
    }
    case Instruction::AtomicCmpXchg: {
      auto* r = llvm::cast<AtomicCmpXchgInst>(I); u64 a = conc(s, op(s, r->getPointerOperand())); Val cmp = op(s, r->getCompareOperand()), nv = op(s, r->getNewValOperand()); unsigned w = tw(r->getCompareOperand()->getType());
      Acc so = ord(r->getSuccessOrdering()), fo = ord(r->getFailureOrdering()); Z3_ast aq = nullptr; Val succ; Acc ac = so; ac.acq = so.acq || fo.acq;
      Z3_ast* aqp = nullptr;
      Val o = rmw(s, a, w / 8, ac, &aq, false, [&](const Val& old) -> std::pair<Val, Val> {
        succ = icmp(CmpInst::ICMP_EQ, old, cmp, w);
        if (so.acq && !fo.acq) aq = ex(succ, 1); else if (!so.acq && fo.acq) aq = NOT(ex(succ, 1));
        return {nv, succ};
      });
      (void)aqp; succ = norm(s, succ);
      Val v; v.a = std::make_shared<vector<Val>>(vector<Val>{o, succ}); set(s, I, v); ++f.it; done(); break;
    }
    case Instruction::Fence: {
      auto* fe = llvm::cast<FenceInst>(I); if (mode == M_TREE) { Ev* e = mkEv(s, E_FENCE); Acc a = ord(fe->getOrdering()); e->acq = a.acq; e->rel = a.rel; onEvent(s, e); } else s.evt = true; ++f.it; done(); break;
    }
    case Instruction::GetElementPtr: {
      auto* g = llvm::cast<GetElementPtrInst>(I); Val b = op(s, g->getPointerOperand()); u64 a = conc(s, b);
      for (auto gt = gep_type_begin(g); gt != gep_type_end(g); ++gt) {
        if (auto* st = gt.getStructTypeOrNull()) a += DL->getStructLayout(st)->getElementOffset(llvm::cast<ConstantInt>(gt.getOperand())->getZExtValue());
        else { Val ix = op(s, gt.getOperand()); a += (u64)(sx(conc(s, ix), tw(gt.getOperand()->getType())) * (i64)DL->getTypeAllocSize(gt.getIndexedType())); }
      }
      set(s, I, Val(a)); ++f.it; break;
    }
    case Instruction::ICmp: {
      auto* c = llvm::cast<ICmpInst>(I); Val a = op(s, c->getOperand(0)), b = op(s, c->getOperand(1)); Type* t = c->getOperand(0)->getType();
      if (t->isPointerTy()) { a = Val(conc(s, a)); b = Val(conc(s, b)); }
      set(s, I, icmp(c->getPredicate(), a, b, tw(t))); ++f.it; break;
    }
    case Instruction::FCmp: {
      auto* c = llvm::cast<FCmpInst>(I); Val a = op(s, c->getOperand(0)), b = op(s, c->getOperand(1)); if (a.sym() || b.sym()) throw EngineError{"symbolic fcmp"};
      double x, y; if (tw(c->getOperand(0)->getType()) == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { float p, q; memcpy(&p, &a.c, 4); memcpy(&q, &b.c, 4); x = p; y = q; }
      bool r; switch (c->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; case CmpInst::FCMP_ORD: r = x == x && y == y; break; case CmpInst::FCMP_UNO: r = x != x || y != y; break; default: throw EngineError{"fcmp"}; }
      set(s, I, Val(r)); ++f.it; break;
    }
    case Instruction::Select: {
      auto* c = llvm::cast<SelectInst>(I); Val k = op(s, c->getCondition()), a = op(s, c->getTrueValue()), b = op(s, c->getFalseValue());
      if (c->getType()->isPointerTy() || a.a) set(s, I, decide(s, k) ? a : b);
      else if (!k.sym()) set(s, I, k.c & 1 ? a : b);
      else { unsigned w = tw(c->getType()); if (!a.sym() && !b.sym() && a.c == b.c) set(s, I, a); else { Z3_ast x = ex(a, w), y = ex(b, w); Z3_ast r = Z3_mk_ite(C, k.s, x, y); if (w > 1 && !a.sym() && !b.sym() && a.c == 1 && b.c == 0) { boolOf[r] = k.s; set(s, I, Val::S(r)); } else set(s, I, mk(r)); } }
      ++f.it; break;
    }
    case Instruction::Br: { auto* b = llvm::cast<BranchInst>(I); if (b->isUnconditional()) jump(s, b->getSuccessor(0)); else jump(s, b->getSuccessor(decide(s, op(s, b->getCondition())) ? 0 : 1)); break; }
    case Instruction::Switch: {
      auto* sw = llvm::cast<SwitchInst>(I); Val v = op(s, sw->getCondition()); unsigned w = tw(sw->getCondition()->getType());
      BasicBlock* to = sw->getDefaultDest();
      for (auto& c : sw->cases()) { Val q = icmp(CmpInst::ICMP_EQ, v, Val(c.getCaseValue()->getZExtValue()), w); if (decide(s, q)) { to = c.getCaseSuccessor(); break; } }
      jump(s, to); break;
    }
    case Instruction::Ret: { auto* r = llvm::cast<ReturnInst>(I); if (r->getReturnValue()) { Val v = op(s, r->getReturnValue()); doRet(s, v, true); } else doRet(s, Val(), false); break; }
    case Instruction::Unreachable: viol("unreachable", "execution reaches undefined behaviour (unreachable)");
    case Instruction::Freeze: set(s, I, op(s, I->getOperand(0))); ++f.it; break;
    case Instruction::ExtractValue: { auto* e = llvm::cast<ExtractValueInst>(I); Val v = op(s, e->getAggregateOperand()); for (unsigned i : e->indices()) { Val t = (*v.a)[i]; v = t; } set(s, I, norm(s, v)); ++f.it; break; }
    case Instruction::InsertValue: {
      auto* e = llvm::cast<InsertValueInst>(I); Val v = op(s, e->getAggregateOperand()); Val x = op(s, e->getInsertedValueOperand());
      std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned d) -> Val { if (d == e->getNumIndices()) return x; Val r; r.a = std::make_shared<vector<Val>>(*a.a); unsigned i = e->getIndices()[d]; (*r.a)[i] = ins((*r.a)[i], d + 1); return r; };
      set(s, I, ins(v, 0)); ++f.it; break;
    }
    case Instruction::Resume: { Val v = op(s, I->getOperand(0)); u64 ex = (*v.a)[0].c; 
      // continue unwinding in the caller
      u64 ti = 0; { // the type travels in the exception record (first word)
        ti = conc(s, load(s, ex, 8, Acc())); }
      popFrame(s); if (s.st.empty()) viol("terminate", "exception leaves a thread"); unwind(s, ex, ti); break; }
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = llvm::cast<CallBase>(I); Function* callee = cb->getCalledFunction();
      if (cb->isInlineAsm()) { ++f.it; break; }
      if (!callee) { Val p = op(s, cb->getCalledOperand()); u64 a = conc(s, p); auto it = faddrRev.find(a); if (it == faddrRev.end()) { char b[80]; snprintf(b, 80, "call through invalid function pointer 0x%lx", (unsigned long)a); viol("memory", b); } callee = it->second; }
      Val out; string n = callee->getName().str();
      if (callee->isIntrinsic()) { intrinsic(s, cb, callee, out); set(s, I, out); finishCall(s, cb); done(); break; }
      if (n.compare(0, 5, "__vp_") == 0) { size_t depth = s.st.size(); if (builtin(s, cb, n, out)) { (void)depth; set(s, I, out); finishCall(s, cb); done(); } else done(); break; }
      if (n == "_ZNSt16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE23_M_add_ref_lock_nothrowEv") {
        // libstdc++'s weak_ptr::lock: its compare-exchange loop is one atomic "increment unless zero"
        u64 a = conc(s, op(s, cb->getArgOperand(0))) + 8; Acc ac; ac.atomic = ac.acq = ac.rel = true; Z3_ast aq = nullptr; Val succ;
        rmw(s, a, 4, ac, &aq, false, [&](const Val& old) -> std::pair<Val, Val> { succ = icmp(CmpInst::ICMP_NE, old, Val(0), 32); if (succ.sym()) aq = succ.s; return {bin(Instruction::Add, old, Val(1), 32), succ}; });
        set(s, I, norm(s, succ)); finishCall(s, cb); done(); break;
      }
      vector<Val> args; for (auto& a : cb->args()) args.push_back(op(s, a.get()));
      if (args.size() != callee->arg_size() && !callee->isVarArg()) throw EngineError{"call arity " + n};
      if (callee->isDeclaration()) throw EngineError{"call to unmodelled function " + n + " at " + where(s)};
      for (unsigned i = 0; i < callee->arg_size(); i++) if (cb->paramHasAttr(i, Attribute::ByVal)) {
        Type* t = cb->getParamByValType(i); u64 sz = DL->getTypeAllocSize(t); u64 p = keyed(s.tid, 's', mix(pos(s), 99 + i), sz, "byval"); copyMem(s, p, conc(s, args[i]), sz); args[i] = Val(p);
      }
      enter(s, callee, args); break;
    }
    default:
      if (auto* b = dyn_cast<BinaryOperator>(I)) { set(s, I, bin(b->getOpcode(), op(s, b->getOperand(0)), op(s, b->getOperand(1)), tw(b->getType()))); ++f.it; break; }
      if (auto* c = dyn_cast<CastInst>(I)) { Val a = op(s, c->getOperand(0)); set(s, I, cast(c->getOpcode(), a, tw(c->getSrcTy()), tw(c->getDestTy()))); ++f.it; break; }
      { string t; raw_string_ostream os(t); I->print(os); throw EngineError{"instruction " + os.str()}; }
  }
}

bool Eng::builtin(State& s, CallBase* cb, const string& n, Val& out) {
  auto A = [&](unsigned i) { return op(s, cb->getArgOperand(i)); };
  if (n == "__vp_malloc") {
    u64 sz = conc(s, A(0)), al = sz >> 32; sz &= 0xffffffffu; if (sz > (1u << 20)) throw EngineError{"allocation of " + std::to_string(sz) + " bytes"};
    s.nalloc++; u64 p = keyed(s.tid, 'h', pos(s), sz, "heap#" + std::to_string(s.tid) + "." + std::to_string(s.nalloc) + "[" + std::to_string(sz) + "] from " + where(s), al);
    s.live[p] = sz; if (mode == M_TREE) onAlloc(s, p, sz); out = Val(p); return true;
  }
  if (n == "__vp_free") {
    u64 p = conc(s, A(0)); if (!p) return true; ObjMeta* m = find(p);
    if (!m || m->base != p || m->kind != 'h') viol("memory", "free of a pointer that is not a heap object");
    if (mode == M_SIM ? simFreed.count(p) : s.freed.count(p)) viol("memory", "double free of " + m->name);
    if (mode == M_TREE) access(s, p, 0, "free", true);
    freeObj(s, m); return true;
  }
  if (n == "__vp_free_untracked") { return true; }
  if (n == "__vp_expect_terminate") { if (mode != M_SEQ) throw EngineError{"expect_terminate after a thread was created"}; s.expTerm = true; return true; }
  if (n == "__vp_noleak") { u64 p = conc(s, A(0)); noLeak.insert(p); return true; }
  if (n == "__vp_nondet") { u64 w = conc(s, A(1)); Val v = nondet(s, w, cstr(s, conc(s, A(0)))); if (w < 64) v = w == 1 ? cast(Instruction::ZExt, v, 1, 64) : cast(Instruction::ZExt, v, w, 64); out = v; return true; }
  if (n == "__vp_assume") {
    Val c = A(0); c = norm(s, icmp(CmpInst::ICMP_NE, c, Val(0), tw(cb->getArgOperand(0)->getType())));
    if (!c.sym()) { if (!(c.c & 1)) throw Stop{S_DEAD}; return true; }
    if (mode == M_TREE) { onAssume(s, c.s); return true; }
    s.pc.push_back(c.s); if (mode == M_SEQ) onAssume(s, c.s); return true;
  }
  if (n == "__vp_assert") { Val c = norm(s, icmp(CmpInst::ICMP_NE, A(0), Val(0), tw(cb->getArgOperand(0)->getType()))); if (!decide(s, c)) viol("assert", cstr(s, conc(s, A(1)))); return true; }
  if (n == "__vp_fail") viol(cstr(s, conc(s, A(0))), cstr(s, conc(s, A(1))));
  if (n == "__vp_reach") { string l = cstr(s, conc(s, A(0))); if (mode == M_SIM) { reached.insert(l); simReached.push_back(l); } else s.reachedLbl.push_back(l); return true; }
  if (n == "__vp_pick") { out = Val(conc(s, A(0))); return true; }
  if (n == "__vp_self") { out = Val(s.tid); return true; }
  if (n == "__vp_thread_create") {
    u64 fn = conc(s, A(0)), arg = conc(s, A(1));
    if (mode == M_SEQ) throw Stop{S_CREATE};
    out = Val((u64)onCreate(s, fn, arg)); s.evt = true; return true;
  }
  if (n == "__vp_thread_join") {
    u64 t = conc(s, A(0)); if ((int)t == s.tid) viol("deadlock", "thread joins itself");
    if (!s.granted) throw Stop{S_JOIN, t}; s.granted = false; s.evt = true;
    if (mode == M_TREE) { Ev* e = mkEv(s, E_JOIN); e->arg = t; onEvent(s, e); } return true;
  }
  auto unlock = [&](u64 m) {
    if (!s.held.count(m)) viol("mutex", "unlock of a mutex the thread does not hold");
    s.held.erase(m); Acc a; a.atomic = a.rel = true; store(s, m, 4, Val(0), a);
  };
  if (n == "__vp_lock") {
    u64 m = conc(s, A(0)); if (s.held.count(m)) viol("deadlock", "thread locks a mutex it already holds");
    access(s, m, 4, "lock", true);
    if (mode == M_SEQ) { Val v = load(s, m, 4, Acc()); if (conc(s, v) != 0) viol("deadlock", "mutex is never released"); store(s, m, 4, Val(1), Acc()); s.held.insert(m); return true; }
    if (!s.granted) throw Stop{S_LOCK, m};
    Acc a; a.atomic = a.acq = true; s.evt = true;
    Val o = rmw(s, m, 4, a, nullptr, true, [&](const Val&) -> std::pair<Val, Val> { return {Val(1), Val(1)}; });
    s.granted = false; s.held.insert(m);
    if (mode == M_TREE) { if (o.sym()) learn(s, o.s, 0); else if (o.c) viol("deadlock", "mutex is never released"); }
    return true;
  }
  if (n == "__vp_trylock") {
    u64 m = conc(s, A(0)); access(s, m, 4, "lock", true);
    if (s.held.count(m)) { out = Val(0); return true; }
    // two-phase: the decision is made on the value read, so the instruction must not be repeated; use a pending flag
    Acc a; a.atomic = a.acq = true; Val succ; Z3_ast aq = nullptr;
    Val o = rmw(s, m, 4, a, &aq, false, [&](const Val& old) -> std::pair<Val, Val> { succ = icmp(CmpInst::ICMP_EQ, old, Val(0), 32); if (succ.sym()) aq = succ.s; return {Val(1), succ}; });
    succ = norm(s, succ); out = succ.sym() ? cast(Instruction::ZExt, succ, 1, 32) : succ;
    return true;   // rt calls __vp_held(m) on success
  }
  if (n == "__vp_held") { s.held.insert(conc(s, A(0))); return true; }
  if (n == "__vp_unlock") { unlock(conc(s, A(0))); return true; }
  if (n == "__vp_cv_begin") {
    u64 cv = conc(s, A(0)), m = conc(s, A(1)); ObjMeta* o = access(s, cv, 1, "wait", true);
    if (!s.held.count(m)) viol("mutex", "condition variable wait without holding the mutex");
    if (mode == M_SEQ) { unlock(m); return true; }
    // the wait counts as an atomic access to the first byte of the condition variable
    touch(s, o, cv - o->base, 1, true, true); checkFlip(); s.evt = true;
    if (mode == M_TREE) { Ev* e = mkEv(s, E_WAITB); e->addr = cv; e->size = 1; e->atomic = true; onEvent(s, e); } else simCv(s, cv, 0);
    unlock(m); return true;
  }
  if (n == "__vp_cv_block") {
    u64 cv = conc(s, A(0)), timed = conc(s, A(1));
    if (mode == M_SEQ) {
      if (timed) { out = Val(3); return true; }
      viol("deadlock", "the only thread waits on a condition variable");
    }
    if (!s.granted) throw Stop{S_WAIT, cv, timed};
    int gm = s.grantMode; s.evt = true;
    if (gm == 2) s.spur++; if (gm == 3) s.tmo++;
    if (mode == M_TREE) onWake(s, gm);
    s.granted = false; out = Val(gm); return true;
  }
  if (n == "__vp_cv_notify") {
    u64 cv = conc(s, A(0)), all = conc(s, A(1)); ObjMeta* o = access(s, cv, 1, "notify", true);
    if (mode == M_SEQ) return true;
    touch(s, o, cv - o->base, 1, true, true); checkFlip(); s.evt = true;
    if (mode == M_TREE) { Ev* e = mkEv(s, E_NOTIFY); e->addr = cv; e->size = 1; e->atomic = true; e->all = all; onEvent(s, e); } else simCv(s, cv, all ? 2 : 1);
    return true;
  }
  if (n == "__vp_unwind") { u64 e = conc(s, A(0)), t = conc(s, A(1)); unwind(s, e, t); return false; }
  throw EngineError{"builtin " + n};
}

bool Eng::intrinsic(State& s, CallBase* cb, Function* f, Val& out) {
  auto A = [&](unsigned i) { return op(s, cb->getArgOperand(i)); };
  unsigned w = 0; if (f->getReturnType()->isIntegerTy()) w = f->getReturnType()->getIntegerBitWidth();
  switch (f->getIntrinsicID()) {
    case Intrinsic::lifetime_end: { if (!s.st.back().quiet && info(s.st.back().f)->ends.count(cb)) { u64 p = A(1).c; if (!s.freed.count(p)) freeObjStack(s, objs[p]); } return true; }
    case Intrinsic::lifetime_start: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: out = Val(0); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: out = A(0); return true;
    case Intrinsic::is_constant: out = Val(0); return true;
    case Intrinsic::objectsize: out = Val(conc(s, A(1)) & 1 ? 0 : mask(~0ULL, w)); return true;
    case Intrinsic::eh_typeid_for: out = Val((u64)typeId(A(0).c)); return true;
    case Intrinsic::threadlocal_address: out = A(0); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: viol("trap", "trap");
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, conc(s, A(0)), conc(s, A(1)), conc(s, A(2))); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      u64 d = conc(s, A(0)), n = conc(s, A(2)); u64 v = conc(s, A(1)) & 255; if (!n) return true; ObjMeta* m = access(s, d, n, "write", true); (void)m;
      u64 pat = 0x0101010101010101ULL * v;
      if (mode != M_SEQ) { touch(s, m, d - m->base, n, true, true); checkFlip(); }
      for (u64 i = 0; i < n;) { u32 k = std::min<u64>(8 - ((d + i) & 7), n - i); if (mode != M_SEQ) for (u32 j = 1; j < k; j++) if (m->info[d + i + j - m->base].start) { k = j; break; } store(s, d + i, k, Val(mask(pat, k * 8)), Acc(), false); i += k; }
      return true;
    }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      auto p = f->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : f->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT : f->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      Val a = A(0), b = A(1), c = icmp(p, a, b, w); out = c.sym() ? mk(Z3_mk_ite(C, c.s, ex(a, w), ex(b, w))) : c.c ? a : b; return true;
    }
    case Intrinsic::abs: { Val a = A(0); Val c = icmp(CmpInst::ICMP_SLT, a, Val(0), w), m = bin(Instruction::Sub, Val(0), a, w); out = c.sym() ? mk(Z3_mk_ite(C, c.s, ex(m, w), ex(a, w))) : c.c ? m : a; return true; }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1), c = icmp(CmpInst::ICMP_ULT, a, b, w), d = bin(Instruction::Sub, a, b, w); out = c.sym() ? mk(Z3_mk_ite(C, c.s, bv(0, w), ex(d, w))) : c.c ? Val(0) : d; return true; }
    case Intrinsic::uadd_sat: { Val a = A(0), b = A(1), d = bin(Instruction::Add, a, b, w), c = icmp(CmpInst::ICMP_ULT, d, a, w); out = c.sym() ? mk(Z3_mk_ite(C, c.s, bv(mask(~0ULL, w), w), ex(d, w))) : c.c ? Val(mask(~0ULL, w)) : d; return true; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
      Val a = A(0); u64 v = mask(conc(s, a), w); u64 r = 0;
      if (f->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(v); else if (!v) r = w; else if (f->getIntrinsicID() == Intrinsic::cttz) r = __builtin_ctzll(v); else r = __builtin_clzll(v) - (64 - w);
      out = Val(r); return true;
    }
    case Intrinsic::bswap: { u64 v = conc(s, A(0)); out = Val(w == 64 ? __builtin_bswap64(v) : w == 32 ? __builtin_bswap32(v) : __builtin_bswap16(v)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 a = conc(s, A(0)), b = conc(s, A(1)), c = conc(s, A(2)) % w; bool l = f->getIntrinsicID() == Intrinsic::fshl; if (!c) out = l ? Val(a) : Val(b); else out = l ? Val(mask((a << c) | (mask(b, w) >> (w - c)), w)) : Val(mask((a << (w - c)) | (mask(b, w) >> c), w)); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned bw = tw(cb->getArgOperand(0)->getType()); Val a = A(0), b = A(1), r, o; auto id = f->getIntrinsicID();
      bool add = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow, sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      r = bin(add ? Instruction::Add : sub ? Instruction::Sub : Instruction::Mul, a, b, bw);
      if (!a.sym() && !b.sym()) {
        __int128 x = sg ? (__int128)sx(a.c, bw) : (__int128)mask(a.c, bw), y = sg ? (__int128)sx(b.c, bw) : (__int128)mask(b.c, bw), z = add ? x + y : sub ? x - y : x * y; __int128 back = sg ? (__int128)sx(r.c, bw) : (__int128)mask(r.c, bw); o = Val(z != back);
      } else {
        Z3_ast x = ex(a, bw), y = ex(b, bw), ok;
        if (add) ok = sg ? AND(Z3_mk_bvadd_no_overflow(C, x, y, true), Z3_mk_bvadd_no_underflow(C, x, y)) : Z3_mk_bvadd_no_overflow(C, x, y, false);
        else if (sub) ok = sg ? AND(Z3_mk_bvsub_no_overflow(C, x, y), Z3_mk_bvsub_no_underflow(C, x, y, true)) : Z3_mk_bvsub_no_underflow(C, x, y, false);
        else ok = sg ? AND(Z3_mk_bvmul_no_overflow(C, x, y, true), Z3_mk_bvmul_no_underflow(C, x, y)) : Z3_mk_bvmul_no_overflow(C, x, y, false);
        o = mk(NOT(ok));
      }
      out.a = std::make_shared<vector<Val>>(vector<Val>{r, o}); return true;
    }
    default: throw EngineError{"intrinsic " + f->getName().str()};
  }
}
