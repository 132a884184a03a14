// vpsym: symbolic execution of LLVM IR decided by Z3.  Core data structures.
#pragma once
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

using u64 = uint64_t; using u32 = uint32_t; using u8 = uint8_t; using i64 = int64_t;
using std::string; using std::vector;

struct Val {                      // integer/pointer (concrete or symbolic) or aggregate
  u64 c = 0; Z3_ast s = nullptr;  // i1 symbolic: Bool sort; otherwise BV of the type's width
  std::shared_ptr<vector<Val>> a;
  Val() {} Val(u64 c) : c(c) {}
  static Val S(Z3_ast e) { Val v; v.s = e; return v; }
  bool sym() const { return s != nullptr; }
};

struct EngineError { string msg; };
struct Fork { Z3_ast e; bool isBool; u64 key; };   // key: decision position (0: freed-object guard)
//          // decide e, then execute the instruction again
enum StopKind { S_NONE, S_FORK, S_LOCK, S_WAIT, S_JOIN, S_DONE, S_VIOL, S_CUT, S_CREATE, S_DEAD };
struct Stop { StopKind k; u64 arg = 0, arg2 = 0; };
struct Violation { string kind, msg; };
struct Restart { string why; };

struct SymB { Z3_ast e; u32 idx; };
struct ObjData {
  vector<u8> b, k;                // bytes; kind 0 undefined, 1 concrete, 2 symbolic
  std::map<u32, SymB> sym;        // offset -> (expr, byte index)
  explicit ObjData(u64 n) : b(n, 0), k(n, 0) {}
};
struct BInfo { u32 rd = 0, wr = 0; bool shared = false, start = false, glued = false; };
struct ObjMeta {
  u64 base, size; char kind; int owner; string name; bool ro = false;   // kind: g heap h stack s tls t function f
  vector<BInfo> info; u32 accT = 0, frT = 0; bool accEv = false;
};
typedef std::unordered_map<u64, std::shared_ptr<ObjData>> MemMap;

struct Frame {
  llvm::Function* f; llvm::BasicBlock* bb; llvm::BasicBlock::iterator it; llvm::BasicBlock* prev = nullptr;
  vector<Val> r; vector<u64> allocas; bool quiet = false;
  u64 ph = 0, bh = 0; u32 irr = 0; vector<std::pair<const llvm::BasicBlock*, u32>> loops;   // position: hash of the call position, block and loop iterations
};

struct State {
  int tid = 0;
  vector<Frame> st;
  MemMap* mem = nullptr;                     // points at own or at the simulator's memory
  MemMap own;
  std::shared_ptr<const MemMap> base;
  std::unordered_map<u64, char> freed; std::unordered_map<u64, Z3_ast> mfreed;   // mfreed: freed on some merged paths
  std::unordered_map<Z3_ast, u64> known;
  vector<Z3_ast> pc;
  vector<std::pair<string, Z3_ast>> inputs;  // nondet symbols in call order (this thread)
  std::set<u64> held;
  std::map<u64, u64> live;                   // heap objects allocated and not freed by this path
    u32 nalloc = 0, nnondet = 0;
  u32 spur = 0, tmo = 0, decisions = 0; u64 steps = 0; u32 apoints = 0; u32 sub = 0, dsub = 0;
  bool granted = false; int grantMode = 0;   // 1 notified, 2 spurious, 3 timeout
  u64 excTI = 0;                             // type of the exception in flight
  vector<string> reachedLbl;
  bool expTerm = false;                      // std::terminate is the expected end of this path
  bool evt = false;                          // simulator: last step touched shared state
  State() {}
  State(const State& o) { *this = o; }
  State& operator=(const State& o) {
    tid = o.tid; st = o.st; own = o.own; base = o.base; freed = o.freed; mfreed = o.mfreed; known = o.known; pc = o.pc; inputs = o.inputs;
    held = o.held; live = o.live; nalloc = o.nalloc; nnondet = o.nnondet;
    spur = o.spur; tmo = o.tmo; decisions = o.decisions; steps = o.steps; apoints = o.apoints; sub = o.sub; dsub = o.dsub; granted = o.granted;
    grantMode = o.grantMode; excTI = o.excTI; evt = o.evt; reachedLbl = o.reachedLbl; expTerm = o.expTerm;
    mem = o.mem == &o.own ? &own : o.mem;
    return *this;
  }
};
