#include "conc.h"

bool Conc::explore() {
  base = std::make_shared<MemMap>(root0.own); bool warmed = false; int flipCount = 0;
  for (;;) {
    try {
      if (elapsed() > O.timeout) { st.inconclusive = "time limit"; return false; }
      if (!warmed) {
        if (threads.empty()) threadId(-1, 0, 0, 0);
        E.onAssume = [](State&, Z3_ast) {};
        Z3_model m0 = nullptr;
        { Z3_solver s2 = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s2); for (auto p : root0.pc) Z3_solver_assert(C, s2, p); if (Z3_solver_check(C, s2) != Z3_L_TRUE) throw EngineError{"path condition"}; m0 = Z3_solver_get_model(C, s2); Z3_model_inc_ref(C, m0); }
        for (int i = 0; i < O.simRuns; i++) { for (auto& x : simIn) x.clear(); simStyle = i & 1; Oracle* o = simulate({}, m0, i > 0); if (O.verbose > 2) fprintf(stderr, "  sim %d: %s\n", i, simViol.c_str()); if (i < 40) sample(i < 20 ? 1 : 2); keep(o); }
        warmed = true; if (O.verbose) fprintf(stderr, "  warm t=%.2f threads %zu\n", elapsed(), threads.size());
      }
      build(); encode(); pendings(); st.rounds++;
      if (O.verbose) fprintf(stderr, "  build %lu: oracles %zu nodes %zu events %zu segs %zu merges %lu rf %lu clauses %lu pend %zu t=%.1f\n", (unsigned long)st.builds, oracles.size(), nodes.size(), events.size(), segs.size(), (unsigned long)st.merges, (unsigned long)st.rfs, (unsigned long)st.clauses, pend.size(), elapsed());
      int got = 0; double firstQ = 0;
      while (got < 12) {
        vector<Z3_ast> pd; for (auto& p : pend) if (!p.hit) pd.push_back(p.lit);
        if (pd.empty()) break;
        Z3_ast q = nb("q"); pd.push_back(E.NOT(q)); assertS(E.ORv(pd));
        auto qt = elapsed(); Z3_lbool r = check({safe, q}, got ? 2 + 2 * firstQ : 0); assertS(E.NOT(q)); if (!got) firstQ = elapsed() - qt;
        if (r == Z3_L_UNDEF && got && st.inconclusive.empty()) break;   // rather continue with the extended graph
        if (O.verbose > 1) fprintf(stderr, "    query -> %d t=%.1f\n", (int)r, elapsed());
        if (r == Z3_L_UNDEF) return false;
        if (r == Z3_L_FALSE) break;
        Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m); got++;
        for (auto& p : pend) if (p.n->stop == S_VIOL && tr(m, p.n->exec)) { report(p.n->v.kind, p.n->v.msg, p.n->where, m); return true; }
        vector<SchedItem> sc; extract(m, sc); bool any = false;
        for (auto& p : pend) if (!p.hit && tr(m, p.lit)) { p.hit = any = true; if (p.n->stop == S_WAIT) sc.push_back({p.n->tid, p.n->pos, p.mode}); if (O.verbose > 2) fprintf(stderr, "      pending node %d t%d stop %d mode %d at %s\n", p.n->id, p.n->tid, p.n->stop, p.mode, p.n->where.c_str()); }
        if (!any) throw EngineError{"model without pending outcome"};
        simTail = true; keep(simulate(sc, m, false)); sample(4); bool so = schedOk; string sv = simViol;
        for (int i = 0; i < O.mutate; i++) { vector<SchedItem> pre(sc.begin(), sc.begin() + (i < 2 ? sc.size() : rnd() % (sc.size() + 1))); simStyle = i & 1; keep(simulate(pre, m, true)); }   // neighbours of the model's schedule
        schedOk = so; simViol = sv; Z3_model_dec_ref(C, m);
        if (O.verbose > 1) fprintf(stderr, "    sched %zu items ok=%d sim=%s\n", sc.size(), schedOk, simViol.c_str());
        if (elapsed() > O.timeout) { st.inconclusive = "time limit"; return false; }
        E.mode = M_TREE;
      }
      if (!got) { st.cuts += lastCuts; return true; }
      if (st.rounds > 300) throw EngineError{"exploration makes no progress"};
    } catch (Restart& r) { st.flips++; if (O.verbose > 1) fprintf(stderr, "  restart: %s\n", r.why.c_str()); if (++flipCount > 2000) throw EngineError{"too many restarts: " + r.why}; }
  }
}
void Conc::report(const string& kind, const string& msg, const string& where, Z3_model m) {
  Cex c; c.kind = kind; c.msg = msg; c.where = where;
  for (auto& i : root0.inputs) c.inputs.push_back({"main", i.first, E.evalModel(m, i.second)});
  for (Node* n : nodes) if (tr(m, n->exec)) for (auto& i : n->inputs) c.inputs.push_back({threads[n->tid].name, i.first, E.evalModel(m, i.second)});
  vector<SchedItem> sc; extract(m, sc); simTail = true; simulate(sc, m, false); c.simMsg = simViol + (schedOk ? "" : " (schedule not followed)"); c.simConfirmed = schedOk; c.sched = trace; c.replay = replayText(); cex.push_back(c);
}
bool Conc::raceQuery() {
  std::map<Ev*, Z3_ast> g; vector<Z3_ast> pairs; vector<std::tuple<Z3_ast, Ev*, Ev*>> pl;
  for (Seg* s : segs) { s->hs = nb("hs"); s->ht = nb("ht"); assertS(E.IMP(s->hs, s->ht)); s->srcE = s->srcT = nullptr; }
  for (Ev* e : events) if (e->wval && e->atomic) g[e] = nb("g");
  auto gOf = [&](Ev* w) -> Z3_ast { auto it = g.find(w); return it == g.end() ? E.FF : it->second; };
  bool fences = false; for (Ev* e : events) if (e->k == E_FENCE) fences = true;
  for (Seg* s : segs) {
    Ev* e = s->sync; if (s->prev) assertS(E.IMP(s->prev->ht, s->hs));
    if (!s->n->segIn.empty() && !e) for (size_t i = 0; i < s->n->segIn.size(); i++) assertS(E.IMP(E.AND(s->n->segIn[i]->ht, s->n->preds[i]->exec), s->hs));
    if (!e) continue;
    vector<Ev*> es{e};   // an atomic read over several cells gives several events in one segment
    for (u32 i = e->idx + 1; i < e->n->evs.size() && e->n->evs[i]->sameClk; i++) es.push_back(e->n->evs[i]);
    if (e->k == E_START) for (Ev* c : creates[e->tid]) assertS(E.IMP(E.AND(c->seg->hs, c->n->exec), s->hs));
    if (e->k == E_JOIN) for (Ev* en : ends[e->arg]) assertS(E.IMP(E.AND(en->seg->hs, E.AND(en->n->exec, e->n->exec)), s->hs));
    for (Ev* x : es) if (x->rval && x->acq) for (auto& p : x->rf) { Z3_ast gw = gOf(p.first); if (gw == E.FF) continue; Z3_ast c = E.AND(E.AND(p.second, x->n->exec), gw); if (x->aguard) c = E.AND(c, x->aguard); assertS(E.IMP(c, s->hs)); }
    if (e->wval && e->atomic) {
      if (e->rel) assertS(E.IMP(s->hs, g[e]));
      if (e->k == E_RMW) for (auto& p : e->rf) { Z3_ast gw = gOf(p.first); if (gw != E.FF) assertS(E.IMP(E.AND(p.second, gw), g[e])); }
    }
    if (fences) {   // fences: any earlier / later event of the thread on the path
      if (e->wval && e->atomic && !e->rel) for (Ev* f : events) if (f->k == E_FENCE && f->rel && f->tid == e->tid && sameThread(f, e) == BEF) assertS(E.IMP(E.AND(f->seg->hs, f->n->exec), g[e]));
      if (e->k == E_FENCE && e->acq) for (Ev* r : events) if (r->rval && r->atomic && r->tid == e->tid && sameThread(r, e) == BEF) for (auto& p : r->rf) { Z3_ast gw = gOf(p.first); if (gw != E.FF) assertS(E.IMP(E.AND(E.AND(p.second, r->n->exec), gw), s->hs)); }
    }
  }
  auto srcOf = [&](Ev* e) { Seg* s = e->seg; if (s->sync && isSync(e)) { if (!s->srcE) { s->srcE = nb("sE"); assertS(E.IMP(s->srcE, s->hs)); } return s->srcE; } if (!s->srcT) { s->srcT = nb("sT"); assertS(E.IMP(s->srcT, s->ht)); } return s->srcT; };
  auto tgtOf = [&](Ev* e) { return isSync(e) ? e->seg->hs : e->seg->ht; };
  std::set<std::tuple<Node*, Seg*, bool, Node*, Seg*, bool>> seen;
  auto addPair = [&](Ev* a, Ev* b, Z3_ast wg, bool freeB) {
    Rel q = rel(a, b); if (q == EXC) return; if (q == BEF || (!freeB && q == AFT)) return;   // statically ordered by create/join/program order
    if (wg == E.TT && !freeB && !seen.insert(std::make_tuple(a->n, a->seg, isSync(a), b->n, b->seg, isSync(b))).second) return;  // same unordered segments
    st.pairs++; Z3_ast p = nb("rp");
    assertS(E.IMP(p, E.AND(a->n->exec, b->n->exec))); assertS(E.IMP(p, wg));
    if (freeB && (q == AFT || a->k == E_FREE)) { /* access after the free, or freed twice: always wrong */ }
    else if (freeB) { Z3_ast l = lt(a, b); assertS(E.IMP(E.AND(p, l), E.AND(srcOf(a), E.NOT(tgtOf(b))))); }
    else { assertS(E.IMP(p, lt(a, b))); assertS(E.IMP(p, srcOf(a))); assertS(E.IMP(p, E.NOT(tgtOf(b)))); }
    pairs.push_back(p); pl.push_back({p, a, b});
  };
  for (auto& c : cells) {
    vector<Ev*> all; for (Ev* e : c.second.r) all.push_back(e); for (Ev* e : c.second.w) if (e->k == E_W) all.push_back(e);
    for (Ev* a : all) for (Ev* b : all) {
      if (a == b || a->tid == b->tid) continue; if (a->atomic && b->atomic) continue;
      bool aw = a->wval, bw = b->wval; if (!aw && !bw) continue;
      Z3_ast wg = E.TT; if (!(aw && !a->wguard) && !(bw && !b->wguard)) wg = E.OR(aw ? a->wguard : E.FF, bw ? b->wguard : E.FF);
      addPair(a, b, wg, false);
    }
  }
  for (auto& f : frees) for (Ev* fe : f.second) { for (Ev* a : accs[f.first]) if (a->tid != fe->tid) addPair(a, fe, E.TT, true); for (Ev* g2 : f.second) if (g2->id < fe->id && g2->tid != fe->tid) addPair(g2, fe, E.TT, true); }
  if (pairs.empty()) return false;
  Z3_ast q = nb("q"); pairs.push_back(E.NOT(q)); assertS(E.ORv(pairs));
  if (O.verbose) fprintf(stderr, "race pairs %zu t=%.1f\n", pl.size(), elapsed());
  Z3_lbool r = check({q});
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
    for (auto& t : pl) if (tr(m, std::get<0>(t)) && std::get<2>(t)->k == E_FREE && std::get<1>(t)->k != E_FREE && tr(m, lt(std::get<1>(t), std::get<2>(t)))) {   // prefer a schedule in which the access really comes after the destruction
      Z3_ast l = lt(std::get<1>(t), std::get<2>(t)); if (l == E.TT) break;
      if (check({std::get<0>(t), E.NOT(l)}) == Z3_L_TRUE) { m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m); }
      break;
    }
    for (auto& t : pl) if (tr(m, std::get<0>(t))) {
      Ev* x = std::get<1>(t), *y = std::get<2>(t); ObjMeta* mm = E.find(x->addr); char b[80]; snprintf(b, 80, "+%lu", (unsigned long)(x->addr - mm->base));
      bool fr = y->k == E_FREE; bool after = fr && (x->k == E_FREE || !tr(m, lt(x, y)));
      report(fr ? "use-after-free" : "data-race", string(fr ? (after ? "access after the object was destroyed: " : "access and destruction are not ordered: ") : "conflicting accesses are not ordered: ") + mm->name.substr(0, mm->name.find(" from")) + b + (x->k == E_FREE ? " free" : x->wval ? " write" : " access") + (x->atomic ? " (atomic)" : "") + " by " + threads[x->tid].name + " at " + Eng::locStr(x->ins) + " vs " + (fr ? "free" : y->wval ? "write" : "read") + (y->atomic ? " (atomic)" : "") + " by " + threads[y->tid].name + " at " + Eng::locStr(y->ins), "", m);
      break;
    }
    assertS(E.NOT(q)); return true;
  }
  assertS(E.NOT(q)); return false;
}

bool Conc::deadlockQuery() {
  vector<Z3_ast> blocked; std::map<u64, Z3_ast> heldC; vector<std::tuple<Z3_ast, Node*>> bl;
  auto held = [&](u64 m) {
    auto& x = heldC[m]; if (x) return x; vector<Z3_ast> c;
    for (Ev* w : cells[m].w) { u64 n; if (E.isNum(w->wval, n) && n == 0) continue;
      Z3_ast l = nb("last"); assertS(E.IMP(l, guardOf(w))); for (Ev* y : cells[m].w) if (y != w) { Rel q = rel(y, w); if (q == BEF || q == EXC) continue; assertS(E.IMP(E.AND(l, guardOf(y)), lt(y, w))); } c.push_back(l); }
    x = nb("held"); c.push_back(E.NOT(x)); assertS(E.ORv(c)); return x;
  };
  vector<Z3_ast> all;
  for (size_t t = 0; t < roots.size(); t++) {
    if (!roots[t]) continue; vector<Z3_ast> tm; 
    { vector<Z3_ast> c{E.NOT(roots[t]->exec)}; for (Ev* e : creates[t]) c.push_back(E.NOT(e->n->exec)); if (t) tm.push_back(E.ANDv(c)); }
    for (Node* n : nodes) if (n->tid == (int)t) {
      if (n->stop == S_DONE) { tm.push_back(n->exec); continue; }
      if (n->stop != S_LOCK && n->stop != S_JOIN && n->stop != S_WAIT) continue;
      if (n->stop == S_WAIT && n->arg2 && O.tmoBudget) continue;
      vector<Z3_ast> c{n->exec}; for (auto& k : n->kids) c.push_back(E.NOT(k.second->exec));
      if (n->stop == S_LOCK) c.push_back(held(n->arg));
      if (n->stop == S_JOIN) for (Ev* en : ends[n->arg]) c.push_back(E.NOT(en->n->exec));
      if (n->stop == S_WAIT) {
        Ev* wb = waitOfNode(n);
        for (Ev* nt : notifies[wb->addr]) {
          if (nt->tid == wb->tid) continue; Z3_ast after = lt(wb, nt);
          if (nt->all) c.push_back(E.OR(E.NOT(nt->n->exec), E.NOT(after)));
          else { vector<Z3_ast> ms; for (auto& m : match) for (auto& p : m.second) if (p.first == nt) ms.push_back(E.AND(p.second, m.first->n->exec)); ms.push_back(E.NOT(nt->n->exec)); ms.push_back(E.NOT(after)); c.push_back(E.ORv(ms)); }
        }
      }
      Z3_ast b = nb("blk"); assertS(E.IMP(b, E.ANDv(c))); tm.push_back(b); blocked.push_back(b); bl.push_back({b, n});
    }
    all.push_back(E.ORv(tm));
  }
  if (blocked.empty()) return false;
  Z3_ast q = nb("q"); for (auto x : all) assertS(E.IMP(q, x)); blocked.push_back(E.NOT(q)); assertS(E.ORv(blocked));
  Z3_lbool r = check({safe, q});
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m); string msg, wh;
    for (auto& t : bl) if (tr(m, std::get<0>(t))) { Node* n = std::get<1>(t); msg += (msg.empty() ? "" : "; ") + threads[n->tid].name + (n->stop == S_LOCK ? " blocked on a mutex at " : n->stop == S_JOIN ? " blocked in join at " : " never woken from a condition variable wait at ") + n->where; }
    report("deadlock", "no thread can make progress: " + msg, "", m); assertS(E.NOT(q)); return true;
  }
  assertS(E.NOT(q)); return false;
}

bool Conc::leakQuery() {
  vector<Z3_ast> all, lk; vector<std::pair<Z3_ast, u64>> ll;
  for (size_t t = 0; t < roots.size(); t++) { if (!roots[t]) continue; vector<Z3_ast> tm; if (t) { vector<Z3_ast> c{E.NOT(roots[t]->exec)}; for (Ev* e : creates[t]) c.push_back(E.NOT(e->n->exec)); tm.push_back(E.ANDv(c)); } for (Node* n : nodes) if (n->tid == (int)t && n->stop == S_DONE) tm.push_back(n->exec); all.push_back(E.ORv(tm)); }
  auto add = [&](Z3_ast ex, u64 p) { if (E.noLeak.count(p)) return; vector<Z3_ast> c{ex}; for (Ev* f : frees[p]) c.push_back(E.NOT(f->n->exec)); Z3_ast l = nb("lk"); assertS(E.IMP(l, E.ANDv(c))); lk.push_back(l); ll.push_back({l, p}); };
  for (auto& p : root0.live) add(E.TT, p.first);
  for (Node* n : nodes) for (auto& p : n->allocs) add(n->exec, p.first);
  if (lk.empty()) return false;
  Z3_ast q = nb("q"); for (auto x : all) assertS(E.IMP(q, x)); lk.push_back(E.NOT(q)); assertS(E.ORv(lk));
  Z3_lbool r = check({safe, q});
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
    for (auto& t : ll) if (tr(m, t.first)) { report("leak", "object is never destroyed: " + E.objs[t.second]->name, "", m); break; }
    assertS(E.NOT(q)); return true;
  }
  assertS(E.NOT(q)); return false;
}

void Conc::run() {
  bool complete = explore();
  if (O.verbose) fprintf(stderr, "explored complete=%d nodes=%zu events=%zu queries=%lu solve=%.2f t=%.2f\n", complete, nodes.size(), events.size(), (unsigned long)st.queries, st.solve, elapsed());
  if (O.dumpTree) for (Node* n : nodes) { fprintf(stderr, "node %d t%d preds", n->id, n->tid); for (Node* p : n->preds) fprintf(stderr, " %d", p->id); fprintf(stderr, " stop %d ev %zu kids %zu where %s %s %s\n", n->stop, n->evs.size(), n->kids.size(), n->where.c_str(), n->v.msg.c_str(), n->stop == S_FORK ? string(Z3_ast_to_string(C, n->fe)).substr(0, 200).c_str() : ""); if (O.verbose > 2) for (Ev* e : n->evs) fprintf(stderr, "     %d seg%d k%d %s+%lu sz%u at%d %s\n", e->id, e->seg->id, e->k, e->addr ? E.find(e->addr)->name.substr(0, 40).c_str() : "", e->addr ? (unsigned long)(e->addr - E.find(e->addr)->base) : 0, e->size, e->atomic, Eng::locStr(e->ins).c_str()); }
  if (!cex.empty() || !st.inconclusive.empty()) return;
  if (O.race) { raceQuery(); if (O.verbose) fprintf(stderr, "race query t=%.2f pairs=%lu\n", elapsed(), (unsigned long)st.pairs); }
  if (!cex.empty() || !st.inconclusive.empty()) return;
  if (O.deadlock) deadlockQuery(); if (O.verbose) fprintf(stderr, "deadlock query t=%.2f\n", elapsed());
  if (!cex.empty() || !st.inconclusive.empty()) return;
  if (O.leak) leakQuery(); if (O.verbose) fprintf(stderr, "leak query t=%.2f\n", elapsed());
}
