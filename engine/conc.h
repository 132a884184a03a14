// vpsym: concurrent exploration.  Every thread is executed symbolically on its own, giving an acyclic graph of
// nodes (paths are merged again where control flow meets); the interleavings are an SMT constraint (clocks,
// reads-from, lock and wake-up matching), never enumerated.
#pragma once
#include "exec.h"

typedef vector<u64> Bits;
static inline bool bget(const Bits& b, u32 i) { return (i >> 6) < b.size() && (b[i >> 6] >> (i & 63) & 1); }
static inline void bset(Bits& b, u32 i) { if (b.size() <= (i >> 6)) b.resize((i >> 6) + 1); b[i >> 6] |= 1ULL << (i & 63); }
static inline void bor(Bits& a, const Bits& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] |= b[i]; }
static inline void band(Bits& a, const Bits& b) { for (size_t i = 0; i < a.size(); i++) a[i] &= i < b.size() ? b[i] : 0; }

struct Oracle {   // what one concrete execution decided: every branch / address decision, every wake-up
  std::unordered_map<u64, u64> dec[32]; std::unordered_map<u64, int> wake[32]; bool has[32] = {};
};
struct Node {
  int id = 0, tid = 0, tix = 0; vector<Node*> preds; Bits anc, dom; Z3_ast exec = nullptr;
  Z3_ast cond = nullptr;                       // fork condition under the (single) predecessor
  vector<Ev*> evs; vector<Z3_ast> assumes; vector<std::pair<u64, u64>> allocs; vector<std::pair<u32, int>> joins; u32 joinMask = 0;
  StopKind stop = S_NONE; Z3_ast fe = nullptr; bool fbool = false; u64 arg = 0, arg2 = 0, pos = 0; std::map<u64, Node*> kids; u32 modes = 0; u64 fkey = 0;
  Violation v; string where; vector<Seg*> segIn; Seg* seg = nullptr; Ev* waitEv = nullptr; int mode = 0; u32 depth = 0;
  std::unordered_map<u64, Ev*> lastAcc; vector<std::pair<string, Z3_ast>> inputs; vector<std::pair<u64, Z3_ast>> insyms;
};
struct Cell { vector<Ev*> r, w; Ev* init = nullptr; };
struct SchedItem { int tid; u64 pos; int wake; };
struct TraceItem { int tid; u32 apoint; int wake; string what; };
struct Cex { string kind, msg, where; vector<TraceItem> sched; vector<std::tuple<string, string, u64>> inputs; bool simConfirmed = false; string simMsg, replay; };
struct ThreadInfo { int parent; u64 pos, fn, arg; string name; };
struct ConcStats { u64 nodes = 0, events = 0, rfs = 0, queries = 0, builds = 0, sims = 0, rounds = 0, cuts = 0, clauses = 0, merges = 0, trans = 0; double solve = 0; u64 pairs = 0, segs = 0, flips = 0; string inconclusive; };

struct BState { State* s; Node* n; Bits o; bool arrived = false; };   // a path being built: its state, node and the oracles that follow it
struct Pend { Z3_ast lit; Node* n; int mode; bool hit = false; };

struct Conc {
  Eng& E; Z3_context C; Z3_solver S = nullptr; State root0; std::shared_ptr<const MemMap> base; ConcStats& st;
  vector<Node*> nodes; vector<Ev*> events; vector<Seg*> segs; vector<Node*> roots; vector<vector<Ev*>> creates, ends; vector<u32> tcount;
  vector<ThreadInfo> threads; std::map<std::tuple<int, u64, u64, u64>, int> tkey; vector<int> todo;
  std::map<u64, Cell> cells; std::map<u64, vector<Ev*>> notifies, waits, frees, accs; std::map<Ev*, vector<Ev*>> wakeOf; std::map<Ev*, Ev*> waitOf; vector<Ev*> joinEvs;
  std::map<Ev*, vector<std::pair<Ev*, Z3_ast>>> match; std::map<std::pair<int, int>, Z3_ast> ltc; Z3_ast safe;
  vector<Oracle*> oracles; vector<Cex> cex; std::chrono::steady_clock::time_point t0; u64 rng; 
  u64 lastCuts = 0; bool schedOk = false, simTail = true; string simViol;

  Conc(Eng& e, const State& s0, ConcStats& st) : E(e), C(e.C), root0(s0), st(st), rng(O.seed * 7919 + 13) { t0 = std::chrono::steady_clock::now(); safe = E.fresh("safe", 1); }
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
  void assertS(Z3_ast a) { if (a == E.TT) return; st.clauses++; Z3_solver_assert(C, S, a); }
  Z3_ast nb(const char* p) { return E.fresh(p, 1); }

  // ---- static order ------------------------------------------------------------------------
  enum Rel { UNK, BEF, AFT, EXC };
  Rel sameThread(Ev* a, Ev* b) {
    if (a->n == b->n) return a->idx < b->idx ? BEF : AFT;
    if (bget(b->n->anc, a->n->tix)) return BEF; if (bget(a->n->anc, b->n->tix)) return AFT; return EXC;
  }
  bool joinedBefore(Ev* e, int t) {
    if (e->n->joinMask >> t & 1) return true;
    for (auto& j : e->n->joins) if (j.second == t && j.first <= e->idx) return true;
    return false;
  }
  Rel rel(Ev* a, Ev* b) {
    if (a == b) return UNK; if (a->k == E_INIT) return BEF; if (b->k == E_INIT) return AFT;
    if (a->tid == b->tid) return sameThread(a, b);
    if (befT(a, b)) return BEF; if (befT(b, a)) return AFT; return UNK;
  }
  bool befT(Ev* a, Ev* b) {
    if (joinedBefore(b, a->tid)) return true;
    int t = b->tid; int guard = 0;
    while (t != 0 && guard++ < 32) {
      if (creates[t].size() != 1) return false;
      Ev* c = creates[t][0];
      if (c->tid == a->tid) return c == a || sameThread(a, c) == BEF;
      if (joinedBefore(c, a->tid)) return true;
      t = c->tid;
    }
    return false;
  }
  static bool isSync(Ev* e) { return e->k == E_RMW || e->k == E_NOTIFY || e->k == E_WAITB || e->k == E_WAKE || e->k == E_CREATE || e->k == E_START || e->k == E_END || e->k == E_JOIN || e->k == E_FENCE || ((e->k == E_R || e->k == E_W) && e->atomic); }
  Z3_ast lt(Ev* a, Ev* b) { Rel r = rel(a, b); if (r == BEF) return E.TT; if (r == AFT || r == EXC) return E.FF; return ltS(a->seg, b->seg); }
  // order of two segments of different threads: a Boolean per pair, kept a linear order by monotonicity along the
  // thread graphs and (three threads and more) by transitivity clauses added on demand
  Rel segRel(Seg* a, Seg* b) { Ev x, y; x.k = y.k = E_ACC; x.n = a->n; y.n = b->n; x.tid = a->tid; y.tid = b->tid; x.idx = a->sync ? a->sync->idx : 0; y.idx = b->sync ? b->sync->idx : 0; if (befT(&x, &y)) return BEF; if (befT(&y, &x)) return AFT; return UNK; }
  Z3_ast ltS(Seg* a, Seg* b) {
    if (a->id > b->id) return E.NOT(ltS(b, a));
    auto& x = ltc[{a->id, b->id}]; if (!x) { Rel r = segRel(a, b); x = r == BEF ? E.TT : r == AFT ? E.FF : nb("o"); } return x;
  }
  void orderAxioms(); bool fixOrder(Z3_model m); vector<Seg*> sortedSegs(Z3_model m);
  Z3_ast guardOf(Ev* w) { return w->k == E_INIT ? E.TT : w->wguard ? E.AND(w->n->exec, w->wguard) : w->n->exec; }
  Z3_ast execOf(Ev* w) { return w->k == E_INIT ? E.TT : w->n->exec; }

  // ---- build (conc_build.cpp) ----------------------------------------------------------------
  Node* newNode(int tid, const vector<Node*>& preds, Z3_ast cond);
  void addEvent(State& s, Ev* e);
  int threadId(int parent, u64 pos, u64 fn, u64 arg);
  State threadState(int t, bool sim);
  int onCreateTree(State& s, u64 fn, u64 arg);
  void growT() { while (roots.size() < threads.size()) { roots.push_back(nullptr); creates.emplace_back(); ends.emplace_back(); tcount.push_back(0); } }
  void build();
  void buildThread(int t); void runState(BState* b, vector<BState*>& wl); BState* kidOf(BState* b, Z3_ast cond, const Bits& o); void finish(BState* b, StopKind k);
  int cmpPos(const State& a, const State& b); bool mergeable(State& a, State& b); BState* merge(BState* a, BState* b);
  Val mergeVal(const Val& a, const Val& b, Z3_ast ga, Type* t); void mergeMem(State& a, State& b, State& o, Z3_ast ga);
  std::unordered_map<const Instruction*, Bits> liveCache; std::unordered_map<const BasicBlock*, Bits> liveOut; std::set<const Function*> liveDone;
  std::unordered_map<const Instruction*, Bits> liveCall; const Bits& liveFrame(const Frame& f, bool top); const Bits& liveAt(const Function* f, const Instruction* before); void computeLive(const Function* f);

  // ---- encode (conc_encode.cpp) --------------------------------------------------------------
  void encode(); void encodeRead(Ev* r, Cell& c); bool must(Ev* w, Ev* r); void newSolver(); Ev* waitOfNode(Node* n);
  Z3_lbool check(const vector<Z3_ast>& a, double limit = 0); void keep(Oracle* o); std::unordered_set<u64> oHash[32]; int simStyle = 0;
  bool tr(Z3_model m, Z3_ast e) { return e == E.TT || (e != E.FF && E.evalModel(m, e) == 1); }
  void extract(Z3_model m, vector<SchedItem>& sched);
  void report(const string& kind, const string& msg, const string& where, Z3_model m);
  bool explore(); bool raceQuery(); bool deadlockQuery(); bool leakQuery(); void run();
  vector<Pend> pend; void pendings();

  // ---- simulation (conc_sim.cpp) -------------------------------------------------------------
  struct SimT { State s; std::unordered_set<u64> donePos; bool started = false, done = false; StopKind stop = S_NONE; u64 arg = 0, arg2 = 0; u64 waitOn = 0; bool notified = false; };
  vector<SimT> sim; vector<TraceItem> trace; Oracle* simO = nullptr; MemMap simMem; std::unordered_map<u64, u64> simIn[32];
  vector<std::tuple<int, int, u32>> simCreates; vector<std::tuple<int, string, u64>> simInputs; int simViolTid = -1; vector<string> okTraces; string replayText(); void sample(u32 max);
  int simCreate(State& s, u64 fn, u64 arg); bool simRunnable(SimT& t); bool simStep(int i, int wakeMode);
  Oracle* simulate(const vector<SchedItem>& sched, Z3_model model, bool randomise);
};
