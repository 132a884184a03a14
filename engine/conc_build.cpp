// Building the per-thread graphs: symbolic execution along the outcomes witnessed so far, with state merging.
#include "conc.h"
#include <llvm/IR/CFG.h>

int Conc::threadId(int parent, u64 pos, u64 fn, u64 arg) {
  auto k = std::make_tuple(parent, pos, fn, arg); auto it = tkey.find(k); if (it != tkey.end()) return it->second;
  int t = threads.size(); if (t >= 30) throw EngineError{"too many threads"};
  u32 n = 0; for (auto& x : threads) if (x.parent == parent) n++;
  tkey[k] = t; threads.push_back({parent, pos, fn, arg, parent < 0 ? "main" : (parent == 0 ? "T" : threads[parent].name + ".") + std::to_string(n + 1)}); return t;
}
State Conc::threadState(int t, bool sim) {
  State s; s.tid = t; s.base = sim ? nullptr : base; s.mem = sim ? &simMem : &s.own;
  if (t) { auto& i = threads[t]; auto f = E.faddrRev.find(i.fn); if (f == E.faddrRev.end()) throw EngineError{"thread function"}; E.enter(s, f->second, {Val(i.arg)}); }
  return s;
}
int Conc::onCreateTree(State& s, u64 fn, u64 arg) {
  int t = threadId(s.tid, Eng::pos(s), fn, arg); growT(); Ev* e = E.mkEv(s, E_CREATE); e->arg = t; addEvent(s, e); creates[t].push_back(e); todo.push_back(t); return t;
}
Node* Conc::newNode(int tid, const vector<Node*>& preds, Z3_ast cond) {
  Node* n = new Node; n->id = nodes.size(); n->tid = tid; n->tix = tcount[tid]++; n->preds = preds; n->cond = cond; nodes.push_back(n);
  n->exec = nb("x"); bool first = true;
  for (Node* p : preds) {
    bor(n->anc, p->anc); bset(n->anc, p->tix);
    Bits d = p->dom; bset(d, p->tix); if (first) { n->dom = d; } else { size_t k = std::max(d.size(), n->dom.size()); n->dom.resize(k); d.resize(k); band(n->dom, d); }
    u32 jm = p->joinMask; for (auto& j : p->joins) jm |= 1u << j.second; n->joinMask = first ? jm : n->joinMask & jm; first = false;
  }
  if (preds.size() == 1) { n->seg = preds[0]->seg; n->waitEv = preds[0]->waitEv; }
  else if (preds.size() > 1) {
    bool same = true; for (Node* p : preds) same &= p->seg == preds[0]->seg;
    if (same) n->seg = preds[0]->seg; else { Seg* g = new Seg; g->id = segs.size(); g->tid = tid; g->n = n; segs.push_back(g); n->seg = g; for (Node* p : preds) n->segIn.push_back(p->seg); }
  }
  return n;
}
void Conc::addEvent(State& s, Ev* e) {
  Node* n = E.curNode; e->n = n;
  if (e->k == E_ACC || e->k == E_R || e->k == E_W || e->k == E_RMW || e->k == E_WAITB || e->k == E_NOTIFY) {
    ObjMeta* m = E.find(e->addr);
    if (m->accEv) {
      auto& l = n->lastAcc[m->base]; bool sync = isSync(e) && !e->sameClk;
      if (l && !sync && l->seg == n->seg && e->k == E_ACC) { delete e; return; }
      if (l && !sync && l->seg == n->seg) { for (auto& x : accs[m->base]) if (x == l) x = e; } else accs[m->base].push_back(e);
      l = e;
    }
  }
  e->id = events.size(); events.push_back(e); e->idx = n->evs.size(); n->evs.push_back(e);
  if (isSync(e) && !e->sameClk) { Seg* g = new Seg; g->id = segs.size(); g->tid = s.tid; g->prev = n->seg; g->sync = e; g->n = n; segs.push_back(g); n->seg = g; }
  e->seg = n->seg;
  switch (e->k) {
    case E_R: cells[e->addr].r.push_back(e); break;
    case E_W: cells[e->addr].w.push_back(e); break;
    case E_RMW: cells[e->addr].r.push_back(e); cells[e->addr].w.push_back(e); break;
    case E_FREE: frees[e->addr].push_back(e); break;
    case E_NOTIFY: notifies[e->addr].push_back(e); break;
    case E_WAITB: n->waitEv = e; break;
    case E_JOIN: n->joins.push_back({e->idx, (int)e->arg}); joinEvs.push_back(e); break;
    default: break;
  }
}

// ---- liveness ------------------------------------------------------------------------------------
void Conc::computeLive(const Function* f) {
  if (!liveDone.insert(f).second) return;
  auto* fi = E.info(f); u32 W = (fi->n + 63) / 64; std::unordered_map<const BasicBlock*, Bits> in; for (auto& bb : *f) { in[&bb] = Bits(W); liveOut[&bb] = Bits(W); }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto it = f->end(); it != f->begin();) {
      auto& bb = *--it; Bits out(W);
      for (auto* sc : successors(&bb)) {
        Bits l = in[sc]; for (auto& ph : sc->phis()) { u32 sl = fi->slot[&ph]; l[sl >> 6] &= ~(1ULL << (sl & 63)); }
        bor(out, l); for (auto& ph : sc->phis()) { auto* v = ph.getIncomingValueForBlock(&bb); auto x = fi->slot.find(v); if (x != fi->slot.end()) bset(out, x->second); }
      }
      liveOut[&bb] = out; Bits l = out;
      for (auto i = bb.rbegin(); i != bb.rend(); ++i) {
        if (isa<PHINode>(*i)) continue;
        if (!i->getType()->isVoidTy()) { u32 sl = fi->slot[&*i]; l[sl >> 6] &= ~(1ULL << (sl & 63)); }
        for (auto& o : i->operands()) { auto x = fi->slot.find(o.get()); if (x != fi->slot.end()) bset(l, x->second); }
      }
      if (l != in[&bb]) { in[&bb] = l; ch = true; }
    }
  }
}
const Bits& Conc::liveAt(const Function* f, const Instruction* before) {
  auto it = liveCache.find(before); if (it != liveCache.end()) return it->second;
  computeLive(f); auto* fi = E.info(f); auto* bb = before->getParent(); Bits l = liveOut[bb];
  for (auto i = bb->rbegin(); i != bb->rend(); ++i) {
    if (!isa<PHINode>(*i)) {
      if (!i->getType()->isVoidTy()) { u32 sl = fi->slot[&*i]; l[sl >> 6] &= ~(1ULL << (sl & 63)); }
      for (auto& o : i->operands()) { auto x = fi->slot.find(o.get()); if (x != fi->slot.end()) bset(l, x->second); }
    }
    if (&*i == before) break;
  }
  return liveCache[before] = l;
}

const Bits& Conc::liveFrame(const Frame& f, bool top) {   // registers still needed by a frame (a caller no longer needs the arguments of the call in progress)
  const Instruction* at = &*f.it; if (top) return liveAt(f.f, at);
  auto it = liveCall.find(at); if (it != liveCall.end()) return it->second;
  computeLive(f.f); Bits l = isa<InvokeInst>(at) ? liveOut[at->getParent()] : liveAt(f.f, at->getNextNode());
  if (!at->getType()->isVoidTy()) { u32 sl = E.info(f.f)->slot[at]; l[sl >> 6] &= ~(1ULL << (sl & 63)); }
  return liveCall[at] = l;
}
// ---- positions and merging -------------------------------------------------------------------------
int Conc::cmpPos(const State& a, const State& b) {   // <0: a is behind b
  for (size_t d = 0; d < std::min(a.st.size(), b.st.size()); d++) {
    auto &x = a.st[d], &y = b.st[d]; if (x.f != y.f) return E.info(x.f)->id < E.info(y.f)->id ? -1 : 1;
    if (x.irr != y.irr) return x.irr < y.irr ? -1 : 1;
    auto* fi = E.info(x.f); auto rp = [&](const BasicBlock* q) { return (int)fi->blk[q].rpo; };
    size_t i = 0;
    for (;; i++) {
      bool xe = i >= x.loops.size(), ye = i >= y.loops.size(); int rx = xe ? rp(x.bb) : rp(x.loops[i].first), ry = ye ? rp(y.bb) : rp(y.loops[i].first);
      if (rx != ry) return rx < ry ? -1 : 1;
      if (xe || ye) { if (xe != ye) return rp(x.bb) < rp(y.bb) ? -1 : 1; break; }
      if (x.loops[i].second != y.loops[i].second) return x.loops[i].second < y.loops[i].second ? -1 : 1;
    }
    u32 ix = fi->iidx[&*x.it], iy = fi->iidx[&*y.it]; if (ix != iy) return ix < iy ? -1 : 1;
  }
  return a.st.size() == b.st.size() ? 0 : a.st.size() < b.st.size() ? -1 : 1;
}
static bool sameVal(const Val& a, const Val& b) {
  if (a.a || b.a) { if (!a.a || !b.a || a.a->size() != b.a->size()) return false; if (a.a == b.a) return true; for (size_t i = 0; i < a.a->size(); i++) if (!sameVal((*a.a)[i], (*b.a)[i])) return false; return true; }
  return a.s == b.s && (a.s || a.c == b.c);
}
static bool hasPtr(Type* t) { if (t->isPointerTy()) return true; if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) if (hasPtr(e)) return true; return false; }
bool Conc::mergeable(State& a, State& b) {
  if (a.held != b.held || a.excTI != b.excTI || a.granted != b.granted) return false;
  for (size_t d = 0; d < a.st.size(); d++) {
    auto &x = a.st[d], &y = b.st[d]; if (x.it != y.it || x.allocas != y.allocas || x.quiet != y.quiet) return false;
    auto* fi = E.info(x.f); auto& lv = liveFrame(x, d + 1 == a.st.size());
    for (auto& sl : fi->slot) {
      if (sameVal(x.r[sl.second], y.r[sl.second])) continue;
      if (!bget(lv, sl.second)) continue;
      Type* t = sl.first->getType(); if (hasPtr(t) || !(t->isIntegerTy() || t->isStructTy())) return false;
    }
  }
  return true;
}
Val Conc::mergeVal(const Val& a, const Val& b, Z3_ast ga, Type* t) {
  if (sameVal(a, b)) return a;
  if (auto* st = dyn_cast<StructType>(t)) { if (!a.a || !b.a) return a.a ? a : b; Val r; r.a = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); i++) r.a->push_back(mergeVal((*a.a)[i], (*b.a)[i], ga, st->getElementType(i))); return r; }
  unsigned w = E.tw(t); Z3_ast r = Z3_mk_ite(C, ga, E.ex(a, w), E.ex(b, w));
  if (w > 1 && !a.sym() && !b.sym() && a.c + b.c == 1 && a.c <= 1) { E.boolOf[r] = a.c ? ga : E.NOT(ga); return Val::S(r); }
  return E.mk(r);
}
void Conc::mergeMem(State& a, State& b, State& o, Z3_ast ga) {
  std::set<u64> keys; for (auto& x : a.own) keys.insert(x.first); for (auto& x : b.own) keys.insert(x.first);
  auto get = [&](State& s, u64 k) -> std::shared_ptr<ObjData> { auto i = s.own.find(k); if (i != s.own.end()) return i->second; if (s.base) { auto j = s.base->find(k); if (j != s.base->end()) return j->second; } return nullptr; };
  for (u64 k : keys) {
    auto pa = get(a, k), pb = get(b, k);
    if (!pa || !pb || pa == pb) { auto p = pa ? pa : pb; if (p) o.own[k] = p; continue; }
    auto r = std::make_shared<ObjData>(*pa); u64 n = r->b.size();
    auto same = [&](u64 i) { if (pa->k[i] != pb->k[i]) return false; if (pa->k[i] == 1) return pa->b[i] == pb->b[i]; if (pa->k[i] == 2) { auto &x = pa->sym[i], &y = pb->sym[i]; return x.e == y.e && x.idx == y.idx; } return true; };
    auto whole = [&](ObjData& d, u64 i, u32 len) { bool c = true, s = true; for (u32 j = 0; j < len; j++) { if (d.k[i + j] != 1) c = false; if (d.k[i + j] != 2) s = false; } if (c) return true; if (!s) return false; auto f = d.sym[i]; if (f.idx || E.widthOf(f.e) != len * 8) return false; for (u32 j = 1; j < len; j++) if (d.sym[i + j].e != f.e || d.sym[i + j].idx != j) return false; return true; };
    for (u64 i = 0; i < n;) {
      if (same(i)) { i++; continue; }
      if (pa->k[i] == 0) { r->k[i] = pb->k[i]; r->b[i] = pb->b[i]; if (pb->k[i] == 2) r->sym[i] = pb->sym[i]; i++; continue; }
      if (pb->k[i] == 0) { i++; continue; }
      u64 st = i; u32 len = 1;
      for (u32 L : {8u, 4u, 2u}) {
        u64 q = i / L * L; if (q + L > n || !whole(*pa, q, L) || !whole(*pb, q, L)) continue;
        u32 diff = 0, hi = 0; for (u32 j = 0; j < L; j++) if (!same(q + j)) { diff++; hi = j; }
        bool symw = pa->k[q] == 2 || pb->k[q] == 2;
        if (!symw) { auto big = [&](ObjData& d) { for (u32 j = L / 2; j < L; j++) if (d.b[q + j]) return true; return false; }; if (!(L == 8 ? (big(*pa) || big(*pb)) : true) && hi < L / 2) continue; if (L < 8 && diff == 1 && pa->b[i] <= 1 && pb->b[i] <= 1) continue; }
        st = q; len = L; break;
      }
      if (len == 1 && !(whole(*pa, i, 1) && whole(*pb, i, 1))) { /* a byte of a wider symbolic value */ }
      Val va = E.rawRead(a, *pa, st, len, 0), vb = E.rawRead(b, *pb, st, len, 0);
      Z3_ast x = E.ex(va, len * 8), y = E.ex(vb, len * 8); Z3_ast e = Z3_mk_ite(C, ga, x, y); Val v;
      if (!va.sym() && !vb.sym() && va.c <= 1 && vb.c <= 1) { E.boolOf[e] = va.c ? ga : E.NOT(ga); v = Val::S(e); } else v = E.mk(e);
      E.rawWrite(*r, st, len, v); i = st + len;
    }
    o.own[k] = r;
  }
}
BState* Conc::merge(BState* ba, BState* bb) {
  State &a = *ba->s, &b = *bb->s; st.merges++;
  Node* n = newNode(a.tid, {ba->n, bb->n}, nullptr); Z3_ast ga = ba->n->exec;
  State* o = new State; o->tid = a.tid; o->base = a.base; o->mem = &o->own; o->held = a.held; o->excTI = a.excTI; o->granted = a.granted; o->grantMode = a.grantMode;
  o->st = a.st;
  for (size_t d = 0; d < a.st.size(); d++) { auto &x = a.st[d], &y = b.st[d]; auto* fi = E.info(x.f); auto& lv = liveFrame(x, d + 1 == a.st.size()); for (auto& sl : fi->slot) { Val &p = x.r[sl.second], &q = y.r[sl.second]; if (sameVal(p, q)) continue; Type* t = sl.first->getType(); if (!bget(lv, sl.second)) { o->st[d].r[sl.second] = Val(); continue; } o->st[d].r[sl.second] = mergeVal(p, q, ga, t); } }
  mergeMem(a, b, *o, ga);
  for (auto& k : a.known) { auto j = b.known.find(k.first); if (j != b.known.end() && j->second == k.second) o->known.insert(k); }
  std::set<u64> fr; for (auto& f : a.freed) fr.insert(f.first); for (auto& f : b.freed) fr.insert(f.first); for (auto& f : a.mfreed) fr.insert(f.first); for (auto& f : b.mfreed) fr.insert(f.first);
  for (u64 f : fr) {
    bool fa = a.freed.count(f), fb = b.freed.count(f);
    if ((fa && fb) || E.objs[f]->kind == 's') { o->freed[f] = 1; continue; }
    auto g = [&](State& s, bool full) { if (full) return E.TT; auto i = s.mfreed.find(f); if (i == s.mfreed.end()) return E.FF; Val v = E.norm(s, Val::S(i->second)); return E.ex(v, 1); };
    Z3_ast x = g(a, fa), y = g(b, fb); if (x == E.FF && y == E.FF) continue;
    o->mfreed[f] = E.OR(E.AND(ba->n->exec, x), E.AND(bb->n->exec, y));
  }
  o->spur = std::max(a.spur, b.spur); o->tmo = std::max(a.tmo, b.tmo); o->decisions = std::max(a.decisions, b.decisions); o->steps = std::max(a.steps, b.steps); o->nalloc = std::max(a.nalloc, b.nalloc);
  if (ba->n->waitEv == bb->n->waitEv) n->waitEv = ba->n->waitEv;
  BState* r = new BState{o, n, ba->o, true}; bor(r->o, bb->o); delete ba->s; delete bb->s; delete ba; delete bb; return r;
}

// ---- running ---------------------------------------------------------------------------------------
void Conc::finish(BState* b, StopKind k) { b->n->stop = k; b->n->where = b->s->st.empty() ? "" : E.where(*b->s); b->n->pos = Eng::pos(*b->s); }
BState* Conc::kidOf(BState* b, Z3_ast cond, const Bits& o) { Node* n = newNode(b->n->tid, {b->n}, cond); return new BState{new State(*b->s), n, o}; }
void Conc::runState(BState* b, vector<BState*>& wl) {
  State& s = *b->s; auto drop = [&] { delete b->s; delete b; };
  for (;;) {
    E.curNode = b->n;
    try {
      size_t depth = s.st.size(); auto* bbk = s.st.back().bb;
      E.step(s);
      if (wl.empty()) continue;
      if (s.st.size() < depth || (s.st.size() == depth && s.st.back().bb != bbk && E.info(s.st.back().f)->blk[s.st.back().bb].join)) {
        bool yield = false; for (auto* w : wl) if (cmpPos(*w->s, s) <= 0) { yield = true; break; }
        if (yield) { b->arrived = true; wl.push_back(b); return; }
      }
    } catch (Fork& f) {
      Node* n = b->n; finish(b, S_FORK); n->fe = f.e; n->fbool = f.isBool; n->fkey = f.key;
      if (s.decisions++ > O.maxDecisions) { st.cuts++; n->stop = S_CUT; drop(); return; }
      std::map<u64, Bits> out;
      for (u32 i = 0; i < oracles.size(); i++) if (bget(b->o, i)) {
        if (f.key == 0) { bset(out[0], i); continue; }
        auto& d = oracles[i]->dec[s.tid]; auto j = d.find(f.key); if (j != d.end()) bset(out[j->second], i);
      }
      for (auto& x : out) {
        u64 v = x.first; Z3_ast c = f.isBool ? (v & 1 ? f.e : E.NOT(f.e)) : Z3_mk_eq(C, f.e, E.bv(v, E.widthOf(f.e)));
        BState* k = kidOf(b, c, x.second); E.learn(*k->s, f.e, f.isBool ? v & 1 : v); n->kids[v] = k->n; wl.push_back(k);
      }
      drop(); return;
    } catch (Stop& p) {
      Node* n = b->n; finish(b, p.k); n->arg = p.arg; n->arg2 = p.arg2;
      if (p.k == S_LOCK || p.k == S_JOIN) { BState* k = kidOf(b, nullptr, b->o); k->s->granted = true; n->kids[0] = k->n; wl.push_back(k); }
      else if (p.k == S_WAIT) {
        n->modes = 1 << 1; if (s.spur < O.spurBudget) n->modes |= 1 << 2; if (p.arg2) { if (s.tmo < O.tmoBudget) n->modes |= 1 << 3; else if (O.tmoBudget) st.cuts++; }
        std::map<int, Bits> out; u64 ps = Eng::pos(s);
        for (u32 i = 0; i < oracles.size(); i++) if (bget(b->o, i)) { auto& d = oracles[i]->wake[s.tid]; auto j = d.find(ps); if (j != d.end()) bset(out[j->second], i); }
        for (auto& x : out) if (n->modes >> x.first & 1) { BState* k = kidOf(b, nullptr, x.second); k->s->granted = true; k->s->grantMode = x.first; k->n->mode = x.first; k->n->waitEv = nullptr; n->kids[x.first] = k->n; wl.push_back(k); }
      } else if (p.k == S_DONE) { E.curNode = n; Ev* e = E.mkEv(s, E_END); addEvent(s, e); ends[s.tid].push_back(e); }
      else if (p.k == S_CUT) st.cuts++;
      drop(); return;
    } catch (Violation& v) { finish(b, S_VIOL); b->n->v = v; drop(); return; }
  }
}
void Conc::buildThread(int t) {
  State* s = new State(t ? threadState(t, false) : root0);
  if (!t) { s->own.clear(); s->base = base; } s->mem = &s->own;
  Node* n = newNode(t, {}, nullptr); roots[t] = n; E.curNode = n; if (!t) n->exec = E.TT;
  Seg* g = new Seg; g->id = segs.size(); g->tid = t; g->n = n; segs.push_back(g); n->seg = g;
  if (t) { Ev* e = E.mkEv(*s, E_START); addEvent(*s, e); }
  BState* b = new BState{s, n, {}}; for (u32 i = 0; i < oracles.size(); i++) if (oracles[i]->has[t]) bset(b->o, i);
  vector<BState*> wl{b};
  while (!wl.empty()) {
    size_t m = 0; for (size_t i = 1; i < wl.size(); i++) if (cmpPos(*wl[i]->s, *wl[m]->s) < 0) m = i;
    BState* c = wl[m]; wl.erase(wl.begin() + m);
    for (bool again = c->arrived; again;) { again = false; for (size_t i = 0; i < wl.size(); i++) if (wl[i]->arrived && cmpPos(*wl[i]->s, *c->s) == 0 && wl[i]->n->waitEv == c->n->waitEv && mergeable(*c->s, *wl[i]->s)) { BState* o = wl[i]; wl.erase(wl.begin() + i); c = merge(c, o); again = true; break; } }
    if (nodes.size() > 60000) throw EngineError{"graph too large"};
    runState(c, wl);
  }
}
void Conc::build() {
  for (auto n : nodes) delete n; for (auto e : events) delete e; for (auto g : segs) delete g;
  for (auto& c : cells) delete c.second.init;
  nodes.clear(); events.clear(); segs.clear(); roots.clear(); creates.clear(); ends.clear(); tcount.clear(); cells.clear(); notifies.clear(); waits.clear(); frees.clear(); accs.clear(); joinEvs.clear(); match.clear(); ltc.clear(); todo.clear();
  safe = nb("safe"); if (threads.empty()) threadId(-1, 0, 0, 0); growT(); st.builds++; u64 cuts0 = st.cuts;
  E.mode = M_TREE; E.flips = false; static vector<Z3_ast> sink; sink.clear(); E.newSyms = &sink;
  E.onEvent = [this](State& s, Ev* e) { addEvent(s, e); };
  E.onCreate = [this](State& s, u64 fn, u64 arg) { return onCreateTree(s, fn, arg); };
  E.onAssume = [this](State& s, Z3_ast a) { E.curNode->assumes.push_back(a); };
  E.onAlloc = [this](State& s, u64 p, u64 n) { E.curNode->allocs.push_back({p, n}); };
  E.onWake = [this](State& s, int m) { Ev* e = E.mkEv(s, E_WAKE); e->arg = m; addEvent(s, e); };
  E.onInput = [this](State& s, const string& nm, u64 key, Z3_ast e) { E.curNode->inputs.push_back({nm, e}); E.curNode->insyms.push_back({key, e}); };
  todo.push_back(0);
  try { while (!todo.empty()) { int t = todo.back(); todo.pop_back(); growT(); if (!roots[t]) buildThread(t); } }
  catch (Restart&) { st.cuts = cuts0; throw; }
  lastCuts = st.cuts - cuts0; st.cuts = cuts0;
  st.nodes = nodes.size(); st.events = events.size(); st.segs = segs.size();
}
