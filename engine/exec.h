// vpsym: the IR interpreter (shared by sequential, tree and simulation modes).
#pragma once
#include "core.h"
using namespace llvm;

enum Mode { M_SEQ, M_TREE, M_SIM };
enum EvKind { E_INIT, E_R, E_W, E_RMW, E_FREE, E_NOTIFY, E_WAITB, E_WAKE, E_CREATE, E_START, E_END, E_JOIN, E_FENCE, E_ACC };
struct Node; struct Ev;
struct Seg { int id = 0, tid = 0; Z3_ast clk = nullptr; Seg* prev = nullptr; Ev* sync = nullptr; Node* n = nullptr; Z3_ast hs = nullptr, ht = nullptr, srcT = nullptr, srcE = nullptr; };
struct Ev {
  int id = 0; EvKind k; int tid = 0; Node* n = nullptr; u32 idx = 0;
  u64 addr = 0; u32 size = 0; bool atomic = false, rel = false, acq = false;
  Z3_ast rval = nullptr, wval = nullptr, wguard = nullptr, aguard = nullptr;  // aguard: acquire only when true
  Seg* seg = nullptr; u64 pos = 0; const Instruction* ins = nullptr;
  u64 arg = 0; bool all = false; bool isLock = false; bool sameClk = false; bool quiet = false;
  vector<std::pair<Ev*, Z3_ast>> rf; Z3_ast more = nullptr;
  string lbl;
};

struct Opts {
  u32 maxSteps = 3000000, maxDecisions = 400, spurBudget = 1, tmoBudget = 2; u32 faultBudget = 0;
  bool leak = true, race = true, deadlock = true; double timeout = 600; int verbose = 0; u64 seed = 1; int simRuns = 300; bool cov = false;
  bool dumpTree = false, traceText = true; string solver = "fd"; unsigned bits = 0; bool crossCheck = false; int warm = 1, mutate = 10, jobs = 64;
};
extern Opts O;

struct BlkInfo { u32 rpo = 0; vector<const BasicBlock*> loops; bool join = false; };
struct FInfo { std::unordered_map<const BasicBlock*, BlkInfo> blk; std::unordered_map<const Instruction*, u32> iidx; int id = 0; std::unordered_map<const Value*, u32> slot; u32 n = 0; bool quiet = false; std::unordered_set<const Instruction*> ends; };

struct Eng {
  Z3_context C; LLVMContext* L; Module* M; const DataLayout* DL;
  Mode mode = M_SEQ;
  std::map<u64, ObjMeta*> objs; u64 nextAddr = 0x100000000ULL;
  std::map<std::tuple<int, char, u64, u64>, u64> allocKeys;
  std::unordered_map<const GlobalVariable*, u64> gaddr; std::unordered_map<const Function*, u64> faddr; std::unordered_map<u64, Function*> faddrRev;
  std::map<std::pair<int, const GlobalVariable*>, u64> tlsAddr;
  std::unordered_map<const Constant*, Val> ccache; std::unordered_map<const Function*, FInfo*> finfo;
  std::map<u64, int> typeIds;
  MemMap globals0;
  Z3_ast TT, FF; std::unordered_map<Z3_ast, Z3_ast> boolOf; u64 freshN = 0;
  std::unordered_map<Z3_ast, u64> symKey;            // fresh symbol -> (point<<16|off)
  std::set<const Function*> encoded; std::unordered_set<const void*> seenLoc; const void* lastLoc = nullptr; std::set<string> reached; u64 totalSteps = 0; u64 undefReads = 0;
  std::set<string> quietFns;
  vector<Ev*>* evs = nullptr; vector<Z3_ast>* newSyms = nullptr;   // tree mode: sinks of the current node
  Node* curNode = nullptr;
  std::function<void(State&, Ev*)> onEvent;            // tree mode: register an event
  std::function<int(State&, u64, u64)> onCreate;       // returns thread id
  std::function<void(State&, Z3_ast)> onAssume; std::function<void(State&, u64, u64)> onAlloc; std::function<void(State&, int)> onWake; std::function<void(State&, u64, int)> simCv; std::function<void(State&, const string&, u64, Z3_ast)> onInput;
  std::function<u64(State&, u64, unsigned, const string&)> simNondet; vector<string> simReached;
  std::function<void(State&, u64, u64)> simLog;   // decisions of the simulated run
  Z3_model simModel = nullptr;
  bool flips = false; string flipWhy;
  bool simReach = false; std::set<u64> noLeak;

  // ---- terms -------------------------------------------------------------------------------
  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
  Z3_ast bv(u64 v, unsigned w) { return Z3_mk_unsigned_int64(C, v, bvs(w)); }
  Z3_ast fresh(const char* p, unsigned w) {
    char b[64]; snprintf(b, 64, "%s!%lu", p, (unsigned long)freshN++);
    return Z3_mk_const(C, Z3_mk_string_symbol(C, b), w == 1 ? Z3_mk_bool_sort(C) : bvs(w));
  }
  Z3_ast NOT(Z3_ast a) {
    if (a == TT) return FF; if (a == FF) return TT;
    if (Z3_get_ast_kind(C, a) == Z3_APP_AST) { Z3_app p = Z3_to_app(C, a); if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_NOT) return Z3_get_app_arg(C, p, 0); }
    return Z3_mk_not(C, a);
  }
  Z3_ast AND(Z3_ast a, Z3_ast b) { if (a == FF || b == FF) return FF; if (a == TT) return b; if (b == TT) return a; if (a == b) return a; Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); }
  Z3_ast OR(Z3_ast a, Z3_ast b) { if (a == TT || b == TT) return TT; if (a == FF) return b; if (b == FF) return a; if (a == b) return a; Z3_ast x[2] = {a, b}; return Z3_mk_or(C, 2, x); }
  Z3_ast ORv(const vector<Z3_ast>& v) { if (v.empty()) return FF; if (v.size() == 1) return v[0]; for (auto x : v) if (x == TT) return TT; return Z3_mk_or(C, v.size(), v.data()); }
  Z3_ast ANDv(const vector<Z3_ast>& v) { if (v.empty()) return TT; if (v.size() == 1) return v[0]; for (auto x : v) if (x == FF) return FF; return Z3_mk_and(C, v.size(), v.data()); }
  Z3_ast IMP(Z3_ast a, Z3_ast b) { if (a == TT) return b; if (a == FF || b == TT) return TT; if (b == FF) return NOT(a); return Z3_mk_implies(C, a, b); }
  Z3_ast EQ(Z3_ast a, Z3_ast b) { if (a == b) return TT; return Z3_simplify(C, Z3_mk_eq(C, a, b)); }
  bool isNum(Z3_ast a, u64& v) {
    if (a == TT) { v = 1; return true; } if (a == FF) { v = 0; return true; }
    if (Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST) { uint64_t x; if (Z3_get_numeral_uint64(C, a, &x)) { v = x; return true; } }
    return false;
  }
  unsigned widthOf(Z3_ast a) { Z3_sort s = Z3_get_sort(C, a); return Z3_get_sort_kind(C, s) == Z3_BOOL_SORT ? 1 : Z3_get_bv_sort_size(C, s); }
  Val mk(Z3_ast e) {
    u64 v; if (isNum(e, v)) return Val(v);
    e = Z3_simplify(C, e); if (isNum(e, v)) return Val(v);
    return Val::S(e);
  }
  static u64 mask(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
  static i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v = mask(v, w); return (i64)((v ^ m) - m); }
  Z3_ast ex(const Val& v, unsigned w) { return v.sym() ? v.s : (w == 1 ? (v.c & 1 ? TT : FF) : bv(mask(v.c, w), w)); }
  Z3_ast toBV(const Val& v, unsigned w) {  // i1 -> 8-bit
    if (w != 1) return ex(v, w);
    if (!v.sym()) return bv(v.c & 1, 8);
    Z3_ast r = Z3_mk_ite(C, v.s, bv(1, 8), bv(0, 8)); boolOf[r] = v.s; return r;
  }
  u64 evalModel(Z3_model m, Z3_ast e) {
    Z3_ast r; if (!Z3_model_eval(C, m, e, true, &r)) throw EngineError{"model eval"};
    u64 v; if (isNum(r, v)) return v;
    if (Z3_get_bool_value(C, r) == Z3_L_TRUE) return 1; if (Z3_get_bool_value(C, r) == Z3_L_FALSE) return 0;
    throw EngineError{string("model eval: ") + Z3_ast_to_string(C, r)};
  }
  Val norm(State& s, const Val& v) {
    if (!v.s) return v;
    if (mode == M_SIM) return Val(evalModel(simModel, v.s));
    auto it = s.known.find(v.s); if (it != s.known.end()) return Val(it->second);
    if (Z3_get_ast_kind(C, v.s) == Z3_APP_AST) {
      Z3_app p = Z3_to_app(C, v.s);
      if (Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_NOT) { auto j = s.known.find(Z3_get_app_arg(C, p, 0)); if (j != s.known.end()) return Val(!j->second); }
    }
    return v;
  }
  void learn(State& s, Z3_ast e, u64 v) {
    s.known[e] = v;
    if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return;
    Z3_app p = Z3_to_app(C, e); auto k = Z3_get_decl_kind(C, Z3_get_app_decl(C, p));
    if (k == Z3_OP_NOT) learn(s, Z3_get_app_arg(C, p, 0), !v);
    else if (k == Z3_OP_EQ && v) {
      Z3_ast a = Z3_get_app_arg(C, p, 0), b = Z3_get_app_arg(C, p, 1); u64 n;
      if (isNum(a, n)) s.known[b] = n; else if (isNum(b, n)) s.known[a] = n;
    } else if (k == Z3_OP_AND && v) { for (unsigned i = 0; i < Z3_get_app_num_args(C, p); i++) learn(s, Z3_get_app_arg(C, p, i), 1); }
    else if (k == Z3_OP_OR && !v) { for (unsigned i = 0; i < Z3_get_app_num_args(C, p); i++) learn(s, Z3_get_app_arg(C, p, i), 0); }
  }
  u64 conc(State& s, const Val& v0) {   // concrete value or fork
    u64 key = decKey(s); Val v = norm(s, v0); if (!v.sym()) { if (mode == M_SIM) simLog(s, key, v.c); return v.c; }
    throw Fork{v.s, widthOf(v.s) == 1, key};
  }
  bool decide(State& s, const Val& v0) { u64 key = decKey(s); Val v = norm(s, v0); if (!v.sym()) { if (mode == M_SIM) simLog(s, key, v.c & 1); return v.c & 1; } throw Fork{v.s, true, key}; }
  // ---- positions: the dynamic instruction instance a thread is at ------------------------------
  static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
  static u64 pos(const State& s) { if (s.st.empty()) return mix(7, s.tid); auto& f = s.st.back(); return mix(f.bh, (u64)&*f.it); }
  u64 decKey(State& s) { return mix(pos(s), 0x5000 + s.dsub++) | 1; }
  u64 symPos(State& s) { return mix(pos(s), 0x100000 + s.sub++) & ~0xffULL; }
  void setBlock(Frame& f, const BasicBlock* from, const BasicBlock* to) {
    auto& bi = info(f.f)->blk[to]; vector<std::pair<const BasicBlock*, u32>> nl; bool natural = false;
    for (auto* h : bi.loops) { u32 it = 0; for (auto& o : f.loops) if (o.first == h) { it = o.second; if (h == to) { it++; natural = true; } } nl.push_back({h, it}); }
    if (from && !natural && info(f.f)->blk[from].rpo >= bi.rpo) f.irr++;
    f.loops = nl; u64 h = mix(f.ph, f.irr); for (auto& l : nl) h = mix(mix(h, (u64)l.first), l.second); f.bh = mix(h, (u64)to);
  }

  // ---- memory ------------------------------------------------------------------------------
  u64 newObj(u64 size, char kind, int owner, const string& name, u64 align = 16) {
    u64 a = (nextAddr + align - 1) / align * align; nextAddr = a + size + 32;
    auto* m = new ObjMeta{a, size, kind, owner, name}; objs[a] = m; return a;
  }
  u64 keyed(int tid, char kind, u64 ord, u64 size, const string& name, u64 align = 16) {
    auto& r = allocKeys[{tid, kind, ord, size}]; if (!r) r = newObj(size, kind, tid, name, std::max<u64>(align, 16)); return r;
  }
  ObjMeta* find(u64 a) { auto it = objs.upper_bound(a); if (it == objs.begin()) return nullptr; --it; auto* m = it->second; return a <= m->base + m->size ? m : nullptr; }
  string where(State& s) {
    string r; int n = 0;
    for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; i--) {
      auto& f = s.st[i]; BasicBlock::iterator it = f.it; if (i != (int)s.st.size() - 1 && it != f.bb->begin()) --it;
      string l = it == f.bb->end() ? "" : locStr(&*it); if (l.empty()) continue; r += (n++ ? " <- " : "") + l;
    }
    return r;
  }
  static string locStr(const Instruction* i) {
    if (!i) return ""; auto& d = i->getDebugLoc(); if (!d) return "";
    const DILocation* loc = d.get(); string f = loc->getFilename().str(); auto p = f.rfind('/');
    string fn; if (auto* sp = loc->getScope()->getSubprogram()) fn = sp->getName().str();
    return (p == string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(loc->getLine()) + (fn.empty() ? "" : "(" + fn + ")");
  }
  [[noreturn]] void viol(const string& k, const string& m) { throw Violation{k, m}; }
  ObjMeta* access(State& s, u64 a, u64 n, const char* what, bool write) {
    ObjMeta* m = find(a);
    if (!m || a + n > m->base + m->size) {
      char b[160]; snprintf(b, 160, "%s of %lu bytes at 0x%lx%s", what, (unsigned long)n, (unsigned long)a, a < 4096 ? " (null pointer)" : m ? (" past the end of " + m->name).c_str() : "");
      viol("memory", b);
    }
    if (mode == M_SIM ? simFreed.count(m->base) : s.freed.count(m->base)) viol("memory", string(what) + (m->kind == 's' ? " of a dead stack object " : " to freed object ") + m->name);
    if (mode == M_TREE && !s.mfreed.empty()) { auto it = s.mfreed.find(m->base); if (it != s.mfreed.end()) { Val g = norm(s, Val::S(it->second)); if (g.sym()) throw Fork{g.s, true, 0}; if (g.c) viol("memory", string(what) + " to freed object " + m->name); } }
    if (write && m->ro) viol("memory", "write to constant " + m->name);
    if (m->kind == 'f') viol("memory", "data access to a function");
    return m;
  }
  ObjData& data(State& s, ObjMeta* m, bool write) {
    auto it = s.mem->find(m->base);
    if (it == s.mem->end()) {
      if (s.base) { auto j = s.base->find(m->base); if (j != s.base->end()) { if (!write) return *j->second; return *((*s.mem)[m->base] = std::make_shared<ObjData>(*j->second)); } }
      auto p = std::make_shared<ObjData>(m->size); (*s.mem)[m->base] = p; return *p;
    }
    if (write && it->second.use_count() > 1) it->second = std::make_shared<ObjData>(*it->second);
    return *it->second;
  }
  Val rawRead(State& s, ObjData& d, u64 off, u32 n, u64 key) {
    bool allc = true, alls = true, allu = true;
    for (u32 i = 0; i < n; i++) { u8 k = d.k[off + i]; if (k != 1) allc = false; if (k != 2) alls = false; if (k) allu = false; }
    if (allc && n <= 8) { u64 v = 0; memcpy(&v, &d.b[off], n); return Val(v); }
    if (n > 8) throw EngineError{"wide read"};
    if (mode != M_SEQ && allu) return Val(0);
    if (allu) { undefReads++; Z3_ast e = fresh("undef", n * 8); symKey[e] = key; if (newSyms) newSyms->push_back(e); return Val::S(e); }
    if (alls) {
      SymB f = d.sym[off]; bool same = f.idx == 0 && widthOf(f.e) == n * 8;
      for (u32 i = 1; same && i < n; i++) { SymB g = d.sym[off + i]; if (g.e != f.e || g.idx != i) same = false; }
      if (same) return norm(s, Val::S(f.e));
    }
    Z3_ast r = nullptr;
    for (u32 i = 0; i < n; i++) {
      Z3_ast b;
      if (d.k[off + i] == 1) b = bv(d.b[off + i], 8);
      else if (d.k[off + i] == 2) { SymB f = d.sym[off + i]; Val v = norm(s, Val::S(f.e)); b = v.sym() ? Z3_mk_extract(C, f.idx * 8 + 7, f.idx * 8, f.e) : bv(v.c >> (8 * f.idx) & 255, 8); }
      else if (mode != M_SEQ) b = bv(0, 8);
      else { b = fresh("undef", 8); symKey[b] = key + i; undefReads++; if (newSyms) newSyms->push_back(b); }
      r = r ? Z3_mk_concat(C, b, r) : b;
    }
    return norm(s, mk(r));
  }
  void rawWrite(ObjData& d, u64 off, u32 n, const Val& v) {
    if (!v.sym()) { for (u32 i = 0; i < n; i++) { d.b[off + i] = v.c >> (8 * i); if (d.k[off + i] == 2) d.sym.erase(off + i); d.k[off + i] = 1; } return; }
    for (u32 i = 0; i < n; i++) { d.k[off + i] = 2; d.sym[off + i] = {v.s, i}; }
  }
  // mark the bytes as accessed by this thread; sets flips when a byte becomes shared
  void touch(State& s, ObjMeta* m, u64 off, u64 n, bool write, bool boundary) {
    if (m->info.empty()) m->info.resize(m->size + 1);
    u32 bit = 1u << s.tid; if (!(m->accT & bit)) { m->accT |= bit; accFlip(m); }
    for (u64 i = off; i < off + n; i++) {
      auto& b = m->info[i]; (write ? b.wr : b.rd) |= bit;
      if (!b.shared && ((b.wr & ~bit) || (write && (b.rd & ~bit)))) { b.shared = true; flips = true; flipWhy = "shared " + m->name + "+" + std::to_string(i); }
    }
    if (!boundary || !n) return;
    for (u64 p : {off, off + n}) {
      auto& b = m->info[p]; if (b.start) continue; b.start = true;
      if (b.glued) { flips = true; flipWhy = "split " + m->name + "+" + std::to_string(p); }
    }
  }
  void accFlip(ObjMeta* m) { if (m->accEv) return; for (int t = 0; t < 32; t++) if ((m->frT >> t & 1) && (m->accT & ~(1u << t))) { m->accEv = true; flips = true; flipWhy = "destroyed by another thread: " + m->name; return; } }
  void touchFree(State& s, ObjMeta* m) { if (m->info.empty()) m->info.resize(m->size + 1); m->frT |= 1u << s.tid; accFlip(m); checkFlip(); }
  void accEvent(State& s, ObjMeta* m, u64 a, u32 n) { Ev* e = mkEv(s, E_ACC); e->addr = a; e->size = n; onEvent(s, e); }
  void checkFlip() { if (mode == M_TREE && flips) throw Restart{flipWhy}; }
  struct Acc { bool atomic = false, rel = false, acq = false; };
  template <class F> void cells(ObjMeta* m, u64 off, u64 n, F f) {  // split [off,off+n) into shared cells and private runs
    u64 i = off;
    while (i < off + n) {
      bool sh = m->info[i].shared; u64 j = i + 1;
      while (j < off + n && m->info[j].shared == sh && !(sh && m->info[j].start) && j - i < 8) j++;
      if (sh) for (u64 k = i + 1; k < j; k++) m->info[k].glued = true;
      f(i, (u32)(j - i), sh); i = j;
    }
  }
  Ev* mkEv(State& s, EvKind k) {
    Ev* e = new Ev; e->k = k; e->tid = s.tid; e->pos = pos(s); e->ins = s.st.empty() ? nullptr : curIns; e->quiet = s.st.empty() ? true : s.st.back().quiet; return e;
  }
  const Instruction* curIns = nullptr;
  Val load(State& s, u64 a, u32 n, Acc ac, bool boundary = true) {
    ObjMeta* m = access(s, a, n, "read", false); u64 off = a - m->base; u64 key = symPos(s);
    if (mode == M_SEQ || m->ro) return rawRead(s, data(s, m, false), off, n, key);
    touch(s, m, off, n, false, boundary); checkFlip();
    if (mode == M_SIM) {
      bool sh = false; for (u32 i = 0; i < n; i++) sh |= m->info[off + i].shared;
      s.evt |= sh;
      return norm(s, rawRead(s, data(s, m, false), off, n, key));
    }
    vector<std::pair<u32, Val>> parts; bool anySh = false;
    cells(m, off, n, [&](u64 o, u32 len, bool sh) {
      if (!sh) { parts.push_back({len, rawRead(s, data(s, m, false), o, len, key + (o - off))}); return; }
      Z3_ast x = fresh("r", len * 8); symKey[x] = key + (o - off); newSyms->push_back(x);
      Ev* e = mkEv(s, E_R); e->addr = m->base + o; e->size = len; e->atomic = ac.atomic; e->acq = ac.acq; e->rval = x; e->sameClk = ac.atomic && !parts.empty(); onEvent(s, e);
      parts.push_back({len, Val::S(x)}); anySh = true;
    });
    if (!anySh && m->accEv) accEvent(s, m, a, n);
    if (parts.size() == 1) return parts[0].second;
    Z3_ast acc = nullptr;
    for (auto& p : parts) { Z3_ast b = ex(p.second, p.first * 8); acc = acc ? Z3_mk_concat(C, b, acc) : b; }
    return norm(s, mk(acc));
  }
  void store(State& s, u64 a, u32 n, const Val& v, Acc ac, bool boundary = true) {
    ObjMeta* m = access(s, a, n, "write", true); u64 off = a - m->base; s.sub++; bool anySh = false;
    if (mode == M_SEQ) { rawWrite(data(s, m, true), off, n, v); return; }
    touch(s, m, off, n, true, boundary); checkFlip();
    if (mode == M_SIM) {
      for (u32 i = 0; i < n; i++) s.evt |= m->info[off + i].shared;
      rawWrite(data(s, m, true), off, n, norm(s, v)); return;
    }
    cells(m, off, n, [&](u64 o, u32 len, bool sh) {
      Val part = v;
      if (len != n) { u32 k = o - off; part = v.sym() ? mk(Z3_mk_extract(C, (k + len) * 8 - 1, k * 8, v.s)) : Val(mask(v.c >> (8 * k), len * 8)); }
      if (!sh) { rawWrite(data(s, m, true), o, len, part); return; }
      if (ac.atomic && len != n) throw EngineError{"atomic access over several cells in " + m->name};
      Ev* e = mkEv(s, E_W); e->addr = m->base + o; e->size = len; e->atomic = ac.atomic; e->rel = ac.rel; e->wval = ex(part, len * 8); onEvent(s, e); anySh = true;
    });
    if (!anySh && m->accEv) accEvent(s, m, a, n);
  }
  // atomic read-modify-write; f(old) gives (new value, write guard)
  template <class F> Val rmw(State& s, u64 a, u32 n, Acc ac, Z3_ast* acqOnlyIf, bool isLock, F f) {
    ObjMeta* m = access(s, a, n, "atomic access", true); u64 off = a - m->base; u64 key = symPos(s);
    if (mode != M_SEQ) { touch(s, m, off, n, true, true); touch(s, m, off, n, false, false); checkFlip(); }
    bool sh = mode != M_SEQ && m->info[off].shared;
    if (mode == M_SIM) s.evt |= sh;
    if (mode != M_TREE || !sh) {
      Val o = rawRead(s, data(s, m, false), off, n, key);
      if (mode == M_SIM) o = norm(s, o); if (mode == M_TREE && m->accEv) accEvent(s, m, a, n);
      std::pair<Val, Val> nv = f(o); Val g = norm(s, nv.second);
      if (!g.sym()) { if (g.c & 1) rawWrite(data(s, m, true), off, n, norm(s, nv.first)); }
      else rawWrite(data(s, m, true), off, n, mk(Z3_mk_ite(C, g.s, ex(nv.first, n * 8), ex(o, n * 8))));
      return o;
    }
    u32 cnt = 0; cells(m, off, n, [&](u64, u32, bool) { cnt++; });
    if (cnt != 1) throw EngineError{"atomic access over several cells in " + m->name};
    Z3_ast x = fresh("u", n * 8); symKey[x] = key; newSyms->push_back(x);
    Ev* e = mkEv(s, E_RMW); e->addr = a; e->size = n; e->atomic = true; e->rel = ac.rel; e->acq = ac.acq; e->rval = x; e->isLock = isLock;
    std::pair<Val, Val> nv = f(Val::S(x));
    e->wval = ex(nv.first, n * 8); e->wguard = nv.second.sym() ? nv.second.s : (nv.second.c & 1 ? nullptr : FF);
    if (acqOnlyIf) e->aguard = *acqOnlyIf;
    onEvent(s, e);
    return Val::S(x);
  }
  void freeObj(State& s, ObjMeta* m) {
    s.freed[m->base] = 1; s.live.erase(m->base);
    if (mode == M_SEQ) { s.mem->erase(m->base); return; }
    touchFree(s, m); bool sh = m->accEv;
    if (mode == M_SIM) { s.evt |= sh; simFreed[m->base] = 1; return; }
    if (sh || m->kind == 'h') { Ev* e = mkEv(s, E_FREE); e->addr = m->base; e->size = m->size; onEvent(s, e); }
  }
  std::unordered_map<u64, char> simFreed;

  // ---- set-up ------------------------------------------------------------------------------
  void layout(Function* f, FInfo& fi);
  // ends of the scope of a local variable; scopes entered repeatedly (loops) are left to the end of the function
  void scopes(const Function* f, FInfo& fi) {
    std::map<const Value*, vector<const Instruction*>> st, en;
    for (auto& bb : *f) for (auto& i : bb) if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
      bool e = ii->getIntrinsicID() == Intrinsic::lifetime_end; if (!e && ii->getIntrinsicID() != Intrinsic::lifetime_start) continue;
      auto* a = dyn_cast<AllocaInst>(ii->getArgOperand(1)); auto* n = dyn_cast<ConstantInt>(ii->getArgOperand(0)); if (!a || !n || isa<PHINode>(a)) continue;
      if (e && !n->isMinusOne() && n->getZExtValue() != DL->getTypeAllocSize(a->getAllocatedType())) { st[a].push_back(nullptr); continue; }
      (e ? en : st)[a].push_back(&i);
    }
    for (auto& p : en) {
      std::set<const BasicBlock*> seen; vector<const BasicBlock*> q; bool again = false; auto& ss = st[p.first]; for (auto* x : ss) if (!x) again = true;
      if (again || ss.empty()) continue;
      for (auto* e : p.second) { for (auto* x : ss) if (x->getParent() == e->getParent() && e->comesBefore(x)) again = true; for (auto* b : successors(e->getParent())) q.push_back(b); }
      while (!q.empty() && !again) { auto* b = q.back(); q.pop_back(); if (!seen.insert(b).second) continue; for (auto* x : ss) if (x->getParent() == b) again = true; for (auto* n : successors(b)) q.push_back(n); }
      if (!again) for (auto* e : p.second) fi.ends.insert(e);
    }
  }
  FInfo* info(const Function* f) {
    auto& p = finfo[f]; if (p) return p; p = new FInfo;
    for (auto& a : f->args()) p->slot[&a] = p->n++;
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
    p->quiet = quietFns.count(f->getName().str()) > 0; p->id = finfo.size();
    if (!f->isDeclaration()) { layout(const_cast<Function*>(f), *p); scopes(f, *p); }
    return p;
  }
  u64 tsize(Type* t) { return DL->getTypeStoreSize(t); }
  unsigned tw(Type* t) {
    if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
    string s; raw_string_ostream os(s); t->print(os); throw EngineError{"unsupported type " + os.str()};
  }
  u64 globalAddr(const GlobalVariable* g, State* s) {
    if (g->isThreadLocal()) {
      int t = s ? s->tid : 0; auto& a = tlsAddr[{t, g}];
      if (!a) a = newObj(DL->getTypeAllocSize(g->getValueType()), 't', t, g->getName().str());
      if (s && !s->mem->count(a) && !(s->base && s->base->count(a))) { auto d = std::make_shared<ObjData>(objs[a]->size); initConst(*d, 0, g->getInitializer()); (*s->mem)[a] = d; }
      return a;
    }
    auto it = gaddr.find(g); if (it == gaddr.end()) throw EngineError{"global " + g->getName().str()}; return it->second;
  }
  void initConst(ObjData& d, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) { u64 n = tsize(t); for (u64 i = 0; i < n; i++) { d.b[off + i] = 0; d.k[off + i] = 1; } return; }
    if (c->isNullValue()) { u64 n = DL->getTypeAllocSize(t); for (u64 i = 0; i < n && off + i < d.b.size(); i++) { d.b[off + i] = 0; d.k[off + i] = 1; } return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(d, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(d, off + i * es, ca->getOperand(i)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initConst(d, off + i * es, cd->getElementAsConstant(i)); return; }
    Val v = cval(c, nullptr); rawWrite(d, off, tsize(t), v);
  }
  void setup() {
    for (auto& f : *M) { u64 a = newObj(1, 'f', -1, f.getName().str()); faddr[&f] = a; faddrRev[a] = &f; }
    for (auto& g : M->globals()) if (!g.isThreadLocal()) { u64 a = newObj(DL->getTypeAllocSize(g.getValueType()), 'g', -1, g.getName().str(), 16); gaddr[&g] = a; objs[a]->ro = g.isConstant(); }
    for (auto& g : M->globals()) if (!g.isThreadLocal()) {
      auto d = std::make_shared<ObjData>(objs[gaddr[&g]]->size);
      if (g.hasInitializer()) initConst(*d, 0, g.getInitializer());
      else if (g.getName().starts_with("_ZTV") ) { for (auto& k : d->k) k = 1; }
      globals0[gaddr[&g]] = d;
    }
  }
  // ---- constants / operands ----------------------------------------------------------------
  Val cval(const Constant* c, State* s) {
    auto it = ccache.find(c); if (it != ccache.end()) return it->second;
    Val v; bool cache = true;
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw EngineError{"wide constant"}; v = Val(ci->getZExtValue()); }
    else if (isa<ConstantPointerNull>(c)) v = Val(0);
    else if (auto* cf = dyn_cast<ConstantFP>(c)) v = Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
      if (auto* st = dyn_cast<StructType>(c->getType())) { v.a = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); i++) v.a->push_back(cval(isa<UndefValue>(c) ? UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i)), s)); }
      else if (auto* at = dyn_cast<ArrayType>(c->getType())) { v.a = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < at->getNumElements(); i++) v.a->push_back(cval(Constant::getNullValue(at->getElementType()), s)); }
      else v = Val(0);
    } else if (auto* cs = dyn_cast<ConstantStruct>(c)) { v.a = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < cs->getNumOperands(); i++) v.a->push_back(cval(cs->getOperand(i), s)); }
    else if (auto* f = dyn_cast<Function>(c)) v = Val(faddr[f]);
    else if (auto* a = dyn_cast<GlobalAlias>(c)) v = cval(a->getAliasee(), s);
    else if (auto* g = dyn_cast<GlobalVariable>(c)) { cache = !g->isThreadLocal(); v = Val(globalAddr(g, s)); }
    else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = llvm::cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) throw EngineError{"const gep"}; v = cval(llvm::cast<Constant>(gep->getPointerOperand()), s); v.c += off.getZExtValue(); break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: v = cval(ce->getOperand(0), s); v.c = mask(v.c, tw(ce->getType())); break;
        case Instruction::Sub: v = Val(mask(cval(ce->getOperand(0), s).c - cval(ce->getOperand(1), s).c, tw(ce->getType()))); break;
        case Instruction::Add: v = Val(mask(cval(ce->getOperand(0), s).c + cval(ce->getOperand(1), s).c, tw(ce->getType()))); break;
        case Instruction::Trunc: v = Val(mask(cval(ce->getOperand(0), s).c, tw(ce->getType()))); break;
        default: throw EngineError{string("const expr ") + ce->getOpcodeName()};
      }
      cache = false;
    } else { string t; raw_string_ostream os(t); c->print(os); throw EngineError{"constant " + os.str()}; }
    if (cache) ccache[c] = v;
    return v;
  }
  Val op(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return cval(c, &s);
    Frame& f = s.st.back(); auto* fi = info(f.f);
    auto it = fi->slot.find(v); if (it == fi->slot.end()) throw EngineError{"operand"};
    Val& r = f.r[it->second]; if (r.s) r = norm(s, r); return r;
  }
  void set(State& s, const Instruction* i, const Val& v) { if (i->getType()->isVoidTy()) return; Frame& f = s.st.back(); f.r[info(f.f)->slot[i]] = v; }

  // ---- operations --------------------------------------------------------------------------
  Val bin(unsigned o, const Val& a, const Val& b, unsigned w) {
    if (!a.sym() && !b.sym()) {
      u64 x = a.c, y = b.c; i64 sa = sx(x, w), sb = sx(y, w);
      switch (o) {
        case Instruction::Add: return Val(mask(x + y, w)); case Instruction::Sub: return Val(mask(x - y, w)); case Instruction::Mul: return Val(mask(x * y, w));
        case Instruction::And: return Val(x & y); case Instruction::Or: return Val(x | y); case Instruction::Xor: return Val(x ^ y);
        case Instruction::Shl: return Val(y >= w ? 0 : mask(x << y, w)); case Instruction::LShr: return Val(y >= w ? 0 : mask(x, w) >> y); case Instruction::AShr: return Val(mask((u64)(sa >> (y >= w ? w - 1 : y)), w));
        case Instruction::UDiv: if (!y) viol("arith", "division by zero"); return Val(x / y); case Instruction::URem: if (!y) viol("arith", "division by zero"); return Val(x % y);
        case Instruction::SDiv: if (!sb) viol("arith", "division by zero"); return Val(mask((u64)(sb == -1 ? -(u64)sa : sa / sb), w)); case Instruction::SRem: if (!sb) viol("arith", "division by zero"); return Val(mask((u64)(sb == -1 ? 0 : sa % sb), w));
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
          if (w == 64) { double p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); double r = o == Instruction::FAdd ? p + q : o == Instruction::FSub ? p - q : o == Instruction::FMul ? p * q : p / q; u64 z; memcpy(&z, &r, 8); return Val(z); }
          float p, q; memcpy(&p, &x, 4); memcpy(&q, &y, 4); float r = o == Instruction::FAdd ? p + q : o == Instruction::FSub ? p - q : o == Instruction::FMul ? p * q : p / q; u64 z = 0; memcpy(&z, &r, 4); return Val(z);
        }
      }
      throw EngineError{"binop"};
    }
    Z3_ast x = ex(a, w), y = ex(b, w);
    if (w == 1) switch (o) {
      case Instruction::And: case Instruction::Mul: return mk(AND(x, y)); case Instruction::Or: return mk(OR(x, y));
      case Instruction::Xor: case Instruction::Add: case Instruction::Sub: { u64 n; if (isNum(y, n)) return mk(n ? NOT(x) : x); if (isNum(x, n)) return mk(n ? NOT(y) : y); return mk(Z3_mk_xor(C, x, y)); }
      default: throw EngineError{"i1 binop"};
    }
    switch (o) {
      case Instruction::Add: return mk(Z3_mk_bvadd(C, x, y)); case Instruction::Sub: return mk(Z3_mk_bvsub(C, x, y)); case Instruction::Mul: return mk(Z3_mk_bvmul(C, x, y));
      case Instruction::And: return mk(Z3_mk_bvand(C, x, y)); case Instruction::Or: return mk(Z3_mk_bvor(C, x, y)); case Instruction::Xor: return mk(Z3_mk_bvxor(C, x, y));
      case Instruction::Shl: return mk(Z3_mk_bvshl(C, x, y)); case Instruction::LShr: return mk(Z3_mk_bvlshr(C, x, y)); case Instruction::AShr: return mk(Z3_mk_bvashr(C, x, y));
      case Instruction::UDiv: return mk(Z3_mk_bvudiv(C, x, y)); case Instruction::URem: return mk(Z3_mk_bvurem(C, x, y)); case Instruction::SDiv: return mk(Z3_mk_bvsdiv(C, x, y)); case Instruction::SRem: return mk(Z3_mk_bvsrem(C, x, y));
    }
    throw EngineError{"symbolic binop"};
  }
  Val icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
    if (!a.sym() && !b.sym()) {
      u64 x = mask(a.c, w), y = mask(b.c, w); i64 sa = sx(x, w), sb = sx(y, w);
      switch (p) {
        case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
        case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SGE: return sa >= sb; case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SLE: return sa <= sb; default: break;
      }
      throw EngineError{"icmp"};
    }
    Z3_ast x = ex(a, w), y = ex(b, w);
    if (w == 1) { if (p == CmpInst::ICMP_EQ) return mk(Z3_mk_eq(C, x, y)); if (p == CmpInst::ICMP_NE) return mk(NOT(Z3_mk_eq(C, x, y))); x = toBV(a, 1); y = toBV(b, 1); w = 8; if (p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE) throw EngineError{"signed i1"}; }
    switch (p) {
      case CmpInst::ICMP_EQ: { auto it = boolOf.find(x); if (it != boolOf.end() && !b.sym()) return mk(mask(b.c, w) == 0 ? NOT(it->second) : mask(b.c, w) == 1 ? it->second : FF); return mk(Z3_mk_eq(C, x, y)); }
      case CmpInst::ICMP_NE: { auto it = boolOf.find(x); if (it != boolOf.end() && !b.sym()) return mk(mask(b.c, w) == 0 ? it->second : mask(b.c, w) == 1 ? NOT(it->second) : TT); return mk(NOT(mkz(Z3_mk_eq(C, x, y)))); }
      case CmpInst::ICMP_UGT: return mk(Z3_mk_bvugt(C, x, y)); case CmpInst::ICMP_UGE: return mk(Z3_mk_bvuge(C, x, y)); case CmpInst::ICMP_ULT: return mk(Z3_mk_bvult(C, x, y)); case CmpInst::ICMP_ULE: return mk(Z3_mk_bvule(C, x, y));
      case CmpInst::ICMP_SGT: return mk(Z3_mk_bvsgt(C, x, y)); case CmpInst::ICMP_SGE: return mk(Z3_mk_bvsge(C, x, y)); case CmpInst::ICMP_SLT: return mk(Z3_mk_bvslt(C, x, y)); case CmpInst::ICMP_SLE: return mk(Z3_mk_bvsle(C, x, y)); default: break;
    }
    throw EngineError{"icmp"};
  }
  Z3_ast mkz(Z3_ast a) { return Z3_simplify(C, a); }
  Val cast(unsigned o, const Val& a, unsigned fw, unsigned tw) {
    switch (o) {
      case Instruction::Trunc: if (!a.sym()) return Val(mask(a.c, tw));
        if (tw == 1) { auto it = boolOf.find(a.s); if (it != boolOf.end()) return Val::S(it->second); return mk(Z3_mk_eq(C, Z3_mk_extract(C, 0, 0, a.s), bv(1, 1))); }
        return mk(Z3_mk_extract(C, tw - 1, 0, a.s));
      case Instruction::ZExt: if (!a.sym()) return Val(mask(a.c, fw)); if (fw == 1) { Z3_ast r = Z3_mk_ite(C, a.s, bv(1, tw), bv(0, tw)); boolOf[r] = a.s; return Val::S(r); }
        return mk(Z3_mk_zero_ext(C, tw - fw, a.s));
      case Instruction::SExt: if (!a.sym()) return Val(mask((u64)sx(a.c, fw), tw)); if (fw == 1) return mk(Z3_mk_ite(C, a.s, bv(mask(~0ULL, tw), tw), bv(0, tw))); return mk(Z3_mk_sign_ext(C, tw - fw, a.s));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
        if (fw == tw) return a; if (tw < fw) return a.sym() ? mk(Z3_mk_extract(C, tw - 1, 0, a.s)) : Val(mask(a.c, tw)); return a.sym() ? mk(Z3_mk_zero_ext(C, tw - fw, a.s)) : a;
    }
    if (a.sym()) throw EngineError{"symbolic float cast"};
    double d = 0; u64 z = 0;
    switch (o) {
      case Instruction::UIToFP: d = (double)mask(a.c, fw); break; case Instruction::SIToFP: d = (double)sx(a.c, fw); break;
      case Instruction::FPExt: { float f; memcpy(&f, &a.c, 4); d = f; break; } case Instruction::FPTrunc: memcpy(&d, &a.c, 8); break;
      case Instruction::FPToUI: case Instruction::FPToSI: if (fw == 64) memcpy(&d, &a.c, 8); else { float f; memcpy(&f, &a.c, 4); d = f; } return Val(mask(o == Instruction::FPToUI ? (u64)d : (u64)(i64)d, tw));
      default: throw EngineError{"cast"};
    }
    if (tw == 64) memcpy(&z, &d, 8); else { float f = (float)d; memcpy(&z, &f, 4); } return Val(z);
  }
  static Acc ord(AtomicOrdering o) { Acc a; a.atomic = o != AtomicOrdering::NotAtomic; a.acq = o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; a.rel = o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; return a; }
  Val loadT(State& s, u64 a, Type* t, Acc ac) {
    if (auto* st = dyn_cast<StructType>(t)) { Val v; v.a = std::make_shared<vector<Val>>(); auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.a->push_back(loadT(s, a + sl->getElementOffset(i), st->getElementType(i), ac)); return v; }
    if (auto* at = dyn_cast<ArrayType>(t)) { Val v; v.a = std::make_shared<vector<Val>>(); u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) v.a->push_back(loadT(s, a + i * es, at->getElementType(), ac)); return v; }
    unsigned w = tw(t); u32 n = tsize(t); Val v = load(s, a, n, ac);
    if (w != n * 8) { v = cast(Instruction::Trunc, v, n * 8, w); v = norm(s, v); }
    return v;
  }
  void storeT(State& s, u64 a, Type* t, const Val& v, Acc ac) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, a + sl->getElementOffset(i), st->getElementType(i), (*v.a)[i], ac); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeT(s, a + i * es, at->getElementType(), (*v.a)[i], ac); return; }
    unsigned w = tw(t); u32 n = tsize(t); Val x = v;
    if (w == 1) { if (x.sym()) x = Val::S(toBV(x, 1)); else x.c &= 1; } else if (w != n * 8) x = cast(Instruction::ZExt, x, w, n * 8);
    store(s, a, n, x, ac);
  }
  void copyMem(State& s, u64 d, u64 src, u64 n) {
    if (!n || d == src) return;
    access(s, src, n, "read", false); access(s, d, n, "write", true);
    vector<std::tuple<u64, u32, Val>> parts;
    ObjMeta* ms = find(src), *md = find(d);
    if (mode != M_SEQ) { if (!ms->ro) touch(s, ms, src - ms->base, n, false, true); touch(s, md, d - md->base, n, true, true); checkFlip(); }
    for (u64 i = 0; i < n;) {
      u32 k = std::min<u64>(8 - ((src + i) & 7), n - i);
      // respect cell starts of either side
      if (mode != M_SEQ) for (u32 j = 1; j < k; j++) if ((!ms->info.empty() && ms->info[src + i + j - ms->base].start) || md->info[d + i + j - md->base].start) { k = j; break; }
      Val v; ObjData* od = mode == M_SEQ || ms->ro ? &data(s, ms, false) : nullptr; bool skip = false;
      if (od) { skip = true; for (u32 j = 0; j < k; j++) if (od->k[src + i + j - ms->base]) skip = false; if (!skip) for (u32 j = 1; j < k; j++) if ((od->k[src + i + j - ms->base] == 0) != (od->k[src + i - ms->base] == 0)) { k = j; skip = od->k[src + i - ms->base] == 0; break; } }
      if (!skip) parts.emplace_back(i, k, load(s, src + i, k, Acc(), false));
      i += k;
    }
    for (auto& p : parts) store(s, d + std::get<0>(p), std::get<1>(p), std::get<2>(p), Acc(), false);
  }
  // ---- control -----------------------------------------------------------------------------
  void enter(State& s, Function* f, vector<Val> args) {
    if (f->isDeclaration()) throw EngineError{"call to unmodelled function " + f->getName().str()};
    if (s.st.size() > 400) throw Stop{S_CUT};
    encoded.insert(f); auto* fi = info(f); Frame fr; fr.f = f; fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin(); fr.r.resize(fi->n); fr.ph = pos(s); setBlock(fr, nullptr, fr.bb);
    fr.quiet = fi->quiet || (!s.st.empty() && s.st.back().quiet);
    for (size_t i = 0; i < f->arg_size(); i++) fr.r[i] = args[i];
    s.st.push_back(std::move(fr));
  }
  void jump(State& s, BasicBlock* to) {
    Frame& f = s.st.back(); f.prev = f.bb; f.bb = to; f.it = to->begin(); setBlock(f, f.prev, to);
    vector<std::pair<const Instruction*, Val>> ph;
    for (auto& p : to->phis()) ph.emplace_back(&p, op(s, p.getIncomingValueForBlock(f.prev)));
    for (auto& p : ph) set(s, p.first, p.second);
    f.it = to->getFirstNonPHI()->getIterator();
  }
  void popFrame(State& s) {
    for (u64 a : s.st.back().allocas) { if (!s.freed.count(a)) freeObjStack(s, objs[a]); }
    s.st.pop_back();
  }
  void freeObjStack(State& s, ObjMeta* m) {
    s.freed[m->base] = 1;
    if (mode == M_SEQ) { s.mem->erase(m->base); return; }
    touchFree(s, m); bool sh = m->accEv;
    if (mode == M_SIM) { s.evt |= sh; simFreed[m->base] = 1; return; }
    if (sh) { Ev* e = mkEv(s, E_FREE); e->addr = m->base; e->size = m->size; onEvent(s, e); }
    else s.mem->erase(m->base);
  }
  bool tiMatch(u64 thrown, u64 want) {   // is `want` the thrown type or a base of it?
    if (thrown == want) return true;
    ObjMeta* m = find(thrown); if (!m || m->kind != 'g') return false;
    GlobalVariable* g = M->getNamedGlobal(m->name); if (!g || !g->hasInitializer()) return false;
    ObjMeta* w = find(want); if (w && w->name == m->name) return true;
    auto* ini = dyn_cast<ConstantStruct>(g->getInitializer()); if (!ini) return false;
    string vt; if (auto* ce = dyn_cast<ConstantExpr>(ini->getOperand(0))) vt = ce->getOperand(0)->getName().str();
    if (vt.find("si_class") != string::npos) return tiMatch(cval(ini->getOperand(2), nullptr).c, want);
    if (vt.find("vmi_class") != string::npos) { for (unsigned i = 4; i + 1 < ini->getNumOperands(); i += 2) if (tiMatch(cval(ini->getOperand(i), nullptr).c, want)) return true; }
    return false;
  }
  int typeId(u64 ti) { if (!ti) return 0x7fff; auto& r = typeIds[ti]; if (!r) r = typeIds.size(); return r; }
  // returns true and sets selector when the pad takes the exception
  bool padTakes(LandingPadInst* lp, u64 ti, int& sel, bool& handler) {
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) { u64 want = cval(lp->getClause(i), nullptr).c; if (!want || tiMatch(ti, want)) { sel = typeId(want); handler = true; return true; } }
      else { auto* arr = lp->getClause(i); bool in = false; if (auto* ca = dyn_cast<ConstantArray>(arr)) for (auto& o : ca->operands()) if (tiMatch(ti, cval(llvm::cast<Constant>(o.get()), nullptr).c)) in = true; if (!in) { sel = -1; handler = true; return true; } }
    }
    if (lp->isCleanup()) { sel = 0; handler = false; return true; }
    return false;
  }
  void unwind(State& s, u64 exc, u64 ti) {
    // phase 1: is there a handler at all?
    bool found = false;
    for (int i = (int)s.st.size() - 1; i >= 0 && !found; i--) {
      auto& f = s.st[i]; Instruction* cs = &*f.it;   // during a call f.it stays at the call
      if (auto* iv = dyn_cast<InvokeInst>(cs)) { int sel; bool h = false; if (padTakes(iv->getLandingPadInst(), ti, sel, h) && h) found = true; }
      else if (f.f->doesNotThrow() && i != (int)s.st.size() - 1) break;
    }
    if (!found) viol("terminate", "exception leaves a noexcept function or a thread (std::terminate)");
    while (!s.st.empty()) {
      auto& f = s.st.back(); Instruction* cs = &*f.it;
      if (auto* iv = dyn_cast<InvokeInst>(cs)) {
        int sel = 0; bool h = false;
        if (padTakes(iv->getLandingPadInst(), ti, sel, h)) {
          BasicBlock* ub = iv->getUnwindDest(); jump(s, ub);
          Val v; v.a = std::make_shared<vector<Val>>(vector<Val>{Val(exc), Val((u64)(u32)sel)}); set(s, ub->getLandingPadInst(), v); s.excTI = ti;
          s.st.back().it = std::next(ub->getLandingPadInst()->getIterator()); return;
        }
      }
      popFrame(s);
    }
    throw EngineError{"unwind"};
  }
  void doRet(State& s, const Val& v, bool hasV) {
    popFrame(s);
    if (s.st.empty()) throw Stop{S_DONE};
    Frame& f = s.st.back(); Instruction* cs = &*f.it;
    if (hasV) set(s, cs, v);
    if (auto* iv = dyn_cast<InvokeInst>(cs)) jump(s, iv->getNormalDest()); else ++f.it;
  }
  void finishCall(State& s, CallBase* cb) { Frame& f = s.st.back(); if (auto* iv = dyn_cast<InvokeInst>(cb)) jump(s, iv->getNormalDest()); else ++f.it; }

  Val nondet(State& s, unsigned w, const string& name) {
    u64 key = symPos(s);
    if (mode == M_SIM) return Val(mask(simNondet(s, key, w, name), w));
    Z3_ast e = fresh(("n_" + name).c_str(), w); symKey[e] = key; if (newSyms) newSyms->push_back(e);
    if (mode == M_TREE) onInput(s, name, key, e); else s.inputs.push_back({name, e}); s.nnondet++;
    return Val::S(e);
  }
  string cstr(State& s, u64 a) { string r; ObjMeta* m = access(s, a, 1, "read", false); ObjData& d = data(s, m, false); for (u64 i = a - m->base; i < m->size && d.b[i]; i++) r += (char)d.b[i]; return r; }
  bool builtin(State& s, CallBase* cb, const string& n, Val& out);
  bool intrinsic(State& s, CallBase* cb, Function* f, Val& out);
  static bool counts(const Instruction* i) {   // replay points
    if (isa<LoadInst>(i) || isa<StoreInst>(i) || isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<FenceInst>(i)) return true;
    if (auto* cb = dyn_cast<CallBase>(i)) { auto* f = cb->getCalledFunction(); if (!f) return false; if (f->getName().starts_with("__vp_")) return true; if (auto* ii = dyn_cast<IntrinsicInst>(cb)) return isa<MemIntrinsic>(ii); }
    return false;
  }
  void step(State& s);
};
