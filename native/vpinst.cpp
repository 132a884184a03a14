// vpinst app.bc rt_common.bc out.bc: prepare the very IR that vpsym executes for native replay.  Every replay point
// (Eng::counts) gets a call into the baton scheduler of rt_native.cpp; the runtime model becomes internal, so that
// libc, libstdc++ and the sanitizer keep their own functions.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <string>
using namespace llvm;
static const char* WLOCK = "_ZNSt16_Sp_counted_baseILN9__gnu_cxx12_Lock_policyE2EE23_M_add_ref_lock_nothrowEv";
enum { RD = 1, WR = 2, AT = 4, ACQ = 8, REL = 16, FENCE = 32 };
static int ord(AtomicOrdering o) { return o == AtomicOrdering::NotAtomic ? 0 : AT | (isAcquireOrStronger(o) ? ACQ : 0) | (isReleaseOrStronger(o) ? REL : 0); }
int main(int argc, char** argv) {
  LLVMContext L; SMDiagnostic err; auto M = parseIRFile(argv[1], err, L); auto R = parseIRFile(argv[2], err, L); if (!M || !R) { err.print("vpinst", errs()); return 3; }
  std::set<std::string> own; for (auto& f : *R) if (!f.isDeclaration() && !f.hasLinkOnceLinkage() && !f.hasWeakLinkage()) own.insert(f.getName().str());
  std::set<std::string> ownG; for (auto& g : R->globals()) if (!g.isDeclaration() && !g.hasLinkOnceLinkage() && !g.hasWeakLinkage() && !g.hasAppendingLinkage()) ownG.insert(g.getName().str());
  std::set<std::string> ownA; for (auto& a : R->aliases()) ownA.insert(a.getName().str());
  if (Linker::linkModules(*M, std::move(R))) return 3;
  for (auto& n : own) if (auto* f = M->getFunction(n)) { f->setComdat(nullptr); f->setLinkage(GlobalValue::InternalLinkage); f->setVisibility(GlobalValue::DefaultVisibility); }
  for (auto& n : ownG) if (auto* g = M->getNamedGlobal(n)) { g->setComdat(nullptr); g->setLinkage(GlobalValue::InternalLinkage); g->setVisibility(GlobalValue::DefaultVisibility); }
  for (auto& n : ownA) if (auto* a = M->getNamedAlias(n)) a->setLinkage(GlobalValue::InternalLinkage);
  auto* V = Type::getVoidTy(L); auto* P = PointerType::get(L, 0); auto* I32 = Type::getInt32Ty(L); auto* I64 = Type::getInt64Ty(L); auto& DL = M->getDataLayout();
  auto point = M->getOrInsertFunction("__vpn_point", V, I32, P, I64); auto cas = M->getOrInsertFunction("__vpn_rmw", V, I32, P, I64, I32); auto acc = M->getOrInsertFunction("__vpn_access", V, I32, P, I64);
  for (auto& f : *M) if (!f.isDeclaration() && (f.hasLinkOnceLinkage() || f.hasWeakLinkage())) { f.setComdat(nullptr); f.setLinkage(GlobalValue::InternalLinkage); f.setVisibility(GlobalValue::DefaultVisibility); }   // libstdc++ keeps its own instantiations
  for (auto n : {"__cxa_throw", "__cxa_init_primary_exception"}) if (auto* f = M->getFunction(n); f && f->isDeclaration()) f->setName(std::string("__vpn_") + n);   // exception objects: see rt_native
  std::vector<Constant*> ents; auto* ET = StructType::get(L, {P, P});
  for (auto& f : *M) {
    if (f.isDeclaration()) continue;
    if (f.getName().starts_with("vp_") && f.arg_size() == 0 && f.hasExternalLinkage()) { IRBuilder<> b(L); auto* s = ConstantDataArray::getString(L, f.getName()); auto* g = new GlobalVariable(*M, s->getType(), true, GlobalValue::PrivateLinkage, s, "ename"); ents.push_back(ConstantStruct::get(ET, {g, &f})); }
    if (f.getName() == WLOCK) continue;
    f.addFnAttr(Attribute::SanitizeAddress);
    std::vector<Instruction*> w; for (auto& bb : f) for (auto& i : bb) w.push_back(&i);
    for (auto* i : w) {
      IRBuilder<> b(i); auto pt = [&](int k, Value* a, Value* n) { b.CreateCall(point, {b.getInt32(k), a, n}); }; auto sz = [&](Type* t) { return b.getInt64(DL.getTypeStoreSize(t)); };
      auto* nul = ConstantPointerNull::get(P);
      if (auto* l = dyn_cast<LoadInst>(i)) pt(RD | ord(l->getOrdering()), l->getPointerOperand(), sz(l->getType()));
      else if (auto* s = dyn_cast<StoreInst>(i)) pt(WR | ord(s->getOrdering()), s->getPointerOperand(), sz(s->getValueOperand()->getType()));
      else if (auto* r = dyn_cast<AtomicRMWInst>(i)) pt(RD | WR | ord(r->getOrdering()), r->getPointerOperand(), sz(r->getType()));
      else if (auto* c = dyn_cast<AtomicCmpXchgInst>(i)) {
        pt(0, nul, b.getInt64(0)); b.SetInsertPoint(i->getNextNode());
        b.CreateCall(cas, {b.getInt32(ord(c->getSuccessOrdering()) | ord(c->getFailureOrdering()) << 8), c->getPointerOperand(), sz(c->getCompareOperand()->getType()), b.CreateZExt(b.CreateExtractValue(c, 1), I32)});
      } else if (isa<FenceInst>(i)) pt(FENCE, nul, b.getInt64(0));
      else if (auto* m = dyn_cast<MemIntrinsic>(i)) {
        auto* n = b.CreateZExtOrTrunc(m->getLength(), I64); pt(WR, m->getDest(), n);
        if (auto* t = dyn_cast<MemTransferInst>(m)) b.CreateCall(acc, {b.getInt32(RD), t->getSource(), n});
      } else if (auto* cb = dyn_cast<CallBase>(i)) {
        auto* fn = cb->getCalledFunction(); if (!fn) continue;
        if (fn->getName().starts_with("__vp_")) pt(0, nul, b.getInt64(0));
        else if (fn->getName() == WLOCK && isa<CallInst>(cb)) { b.SetInsertPoint(i->getNextNode()); b.CreateCall(cas, {b.getInt32(AT | ACQ | REL | AT << 8), b.CreateConstGEP1_64(b.getInt8Ty(), cb->getArgOperand(0), 8), b.getInt64(4), b.CreateZExt(cb, I32)}); }
      }
    }
  }
  ents.push_back(ConstantStruct::get(ET, {ConstantPointerNull::get(P), ConstantPointerNull::get(P)}));
  auto* AT_ = ArrayType::get(ET, ents.size()); new GlobalVariable(*M, AT_, true, GlobalValue::ExternalLinkage, ConstantArray::get(AT_, ents), "__vpn_entries");
  std::error_code ec; raw_fd_ostream o(argv[3], ec, sys::fs::OF_None); WriteBitcodeToFile(*M, o); return 0;
}
