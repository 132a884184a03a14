// Encoding the thread graphs and all their interleavings into one SMT problem.
#include "conc.h"

void Conc::newSolver() {
  if (S) Z3_solver_dec_ref(C, S);
  S = O.solver == "fd" ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD")) : O.solver == "smt" ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, S);
}
Z3_lbool Conc::check(const vector<Z3_ast>& a, double limit) {
  st.queries++; auto t = std::chrono::steady_clock::now(); double left = O.timeout - elapsed(); if (left < 1) left = 1; if (limit && limit < left) left = limit; else limit = 0; u64 loops = 0, tr0 = st.trans;
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(left * 1000)); Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
  Z3_lbool r;
  if (getenv("VP_DIMACS")) { static int n = 0; char f[100]; snprintf(f, 100, "%s/q%d.cnf", getenv("VP_DIMACS"), n++); Z3_solver_push(C, S); for (auto x : a) Z3_solver_assert(C, S, x); FILE* o = fopen(f, "w"); fputs(Z3_solver_to_dimacs_string(C, S, false), o); fclose(o); Z3_solver_pop(C, S, 1); }
  for (;;) {
    r = Z3_solver_check_assumptions(C, S, a.size(), a.data()); loops++;
    if (r != Z3_L_TRUE || threads.size() < 3) break;
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m); bool fixed = fixOrder(m); Z3_model_dec_ref(C, m); if (!fixed) break;
  }
  st.solve += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
  if (O.verbose > 1) fprintf(stderr, "      check %d loops %lu trans %lu %.2fs\n", (int)r, (unsigned long)loops, (unsigned long)(st.trans - tr0), std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count());
  if (r == Z3_L_UNDEF && !limit) st.inconclusive = string("solver: ") + Z3_solver_get_reason_unknown(C, S);
  return r;
}
void Conc::orderAxioms() {
  auto edge = [&](Seg* p, Seg* g, Z3_ast c) {   // p is before g in its thread (when c holds)
    for (Seg* b : segs) if (b->tid != g->tid) { Z3_ast x = ltS(g, b), y = ltS(p, b); if (x == y || x == E.FF || y == E.TT) continue; assertS(E.IMP(E.AND(c, x), y)); }
  };
  for (Seg* g : segs) { if (g->prev) edge(g->prev, g, E.TT); if (!g->sync) for (size_t i = 0; i < g->n->segIn.size(); i++) edge(g->n->segIn[i], g, g->n->preds[i]->exec); }
}
bool Conc::fixOrder(Z3_model m) {   // add the transitivity clauses a model violates
  vector<vector<Seg*>> v(threads.size()); for (Seg* g : segs) if (tr(m, g->n->exec)) v[g->tid].push_back(g);
  auto L = [&](Seg* a, Seg* b) { return tr(m, ltS(a, b)); }; u64 added = 0; std::unordered_map<u64, bool> memo;
  auto LL = [&](Seg* a, Seg* b) { u64 k = (u64)a->id << 32 | b->id; auto i = memo.find(k); if (i != memo.end()) return i->second; bool x = L(a, b); memo[k] = x; return x; };
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) for (size_t k = i + 1; k < v.size(); k++) if (k != j)
    for (Seg* a : v[i]) for (Seg* b : v[j]) { if (!LL(a, b)) continue; for (Seg* c : v[k]) if (LL(b, c) && LL(c, a)) { assertS(E.NOT(E.AND(ltS(a, b), E.AND(ltS(b, c), ltS(c, a))))); added++; } }
  st.trans += added; return added > 0;
}
vector<Seg*> Conc::sortedSegs(Z3_model m) {
  vector<vector<Seg*>> v(threads.size()); vector<Seg*> out; for (Seg* g : segs) if (tr(m, g->n->exec)) v[g->tid].push_back(g);
  for (auto& x : v) std::sort(x.begin(), x.end(), [&](Seg* a, Seg* b) { if (a->n == b->n) { int i = a->sync ? (int)a->sync->idx : -1, j = b->sync ? (int)b->sync->idx : -1; return i < j; } return bget(b->n->anc, a->n->tix); });
  vector<size_t> p(v.size());
  for (;;) {
    int best = -1; bool any = false;
    for (size_t i = 0; i < v.size(); i++) { if (p[i] >= v[i].size()) continue; any = true; bool min = true; for (size_t j = 0; j < v.size(); j++) if (j != i && p[j] < v[j].size() && tr(m, ltS(v[j][p[j]], v[i][p[i]]))) min = false; if (min) { best = i; break; } }
    if (!any) break; if (best < 0) throw EngineError{"cyclic order in a model"};
    out.push_back(v[best][p[best]++]);
  }
  return out;
}
// w certainly executes, before r, whenever r executes
bool Conc::must(Ev* w, Ev* r) {
  if (w->tid == r->tid) return w->n == r->n ? w->idx < r->idx : bget(r->n->dom, w->n->tix);
  if (joinedBefore(r, w->tid) && ends[w->tid].size() == 1 && must(w, ends[w->tid][0])) return true;
  int t = r->tid; if (!t || creates[t].size() != 1) return false;
  return w == creates[t][0] || must(w, creates[t][0]);
}
Ev* Conc::waitOfNode(Node* n) { if (!n->waitEv) throw EngineError{"wait without begin"}; return n->waitEv; }
void Conc::encodeRead(Ev* r, Cell& c) {
  vector<Ev*> cand, ws; 
  for (Ev* w : c.w) if (w != r) { Rel q = rel(w, r); if (q == EXC) continue; ws.push_back(w); if (q != AFT) cand.push_back(w); }
  // writes certainly executed before r hide everything before them
  vector<Ev*> dom; for (Ev* w : cand) if (!w->wguard && must(w, r)) dom.push_back(w);
  vector<Ev*> c2; for (Ev* w : cand) { bool hid = false; for (Ev* d : dom) if (d != w && rel(w, d) == BEF) { hid = true; break; } if (!hid) c2.push_back(w); }
  if (dom.empty()) c2.push_back(c.init);
  Z3_ast ex = r->n->exec; vector<Z3_ast> alt{E.NOT(ex)};
  if (c2.size() == 1) { r->rf = {{c2[0], ex}}; assertS(E.IMP(ex, Z3_mk_eq(C, r->rval, c2[0]->wval))); st.rfs++; return; }
  for (Ev* w : c2) {
    Z3_ast v = nb("f"); r->rf.push_back({w, v}); alt.push_back(v); st.rfs++;
    assertS(E.IMP(v, guardOf(w))); assertS(E.IMP(v, ex)); assertS(E.IMP(v, lt(w, r))); assertS(E.IMP(v, Z3_mk_eq(C, r->rval, w->wval)));
    for (Ev* x : ws) {
      if (x == w) continue; Rel qw = rel(w, x), qr = rel(x, r);
      if (qw == AFT || qw == EXC || qr == AFT || qr == EXC) continue;
      Z3_ast a = w->k == E_INIT || qw == BEF ? E.TT : lt(w, x), b = qr == BEF ? E.TT : lt(x, r);
      assertS(E.NOT(E.AND(E.AND(v, guardOf(x)), E.AND(a, b))));
    }
  }
  assertS(E.ORv(alt));
}
void Conc::encode() {
  newSolver(); st.rfs = 0; st.clauses = 0;
  for (auto p : root0.pc) assertS(p);
  for (Node* n : nodes) {
    Z3_ast x = n->exec;
    if (n->preds.empty()) { if (n->tid) { vector<Z3_ast> c; for (Ev* e : creates[n->tid]) c.push_back(e->n->exec); assertS(E.IMP(x, E.ORv(c))); if (c.size() > 1) for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < i; j++) if (rel(creates[n->tid][i], creates[n->tid][j]) != EXC) throw EngineError{"thread created twice"}; } }
    else if (n->preds.size() == 1) { Z3_ast p = n->preds[0]->exec; if (n->cond) { Z3_ast d = E.AND(p, n->cond); assertS(E.IMP(x, d)); assertS(E.IMP(d, x)); } else assertS(E.IMP(x, p)); }
    else { vector<Z3_ast> c; for (Node* p : n->preds) { c.push_back(p->exec); assertS(E.IMP(p->exec, x)); } assertS(E.IMP(x, E.ORv(c))); }
    for (auto a : n->assumes) assertS(E.IMP(x, a));
    if (n->stop == S_WAIT) for (auto i = n->kids.begin(); i != n->kids.end(); ++i) for (auto j = std::next(i); j != n->kids.end(); ++j) assertS(E.NOT(E.AND(i->second->exec, j->second->exec)));
  }
  orderAxioms();
  for (auto& c : cells) {
    Ev* i = new Ev; i->k = E_INIT; i->addr = c.first; c.second.init = i; u32 sz = 0; for (Ev* e : c.second.r) sz = e->size; if (!sz) for (Ev* e : c.second.w) sz = e->size;
    for (Ev* e : c.second.r) if (e->size != sz) throw EngineError{"cell size"}; for (Ev* e : c.second.w) if (e->size != sz) throw EngineError{"cell size"};
    ObjMeta* m = E.find(c.first); auto j = base->find(m->base); Val v(0);
    if (j != base->end()) { State tmp; tmp.known = root0.known; v = E.rawRead(tmp, *j->second, c.first - m->base, sz, 0); }
    i->wval = E.ex(v, sz * 8); i->size = sz;
    for (Ev* r : c.second.r) { encodeRead(r, c.second); if (r->isLock) assertS(E.IMP(r->n->exec, Z3_mk_eq(C, r->rval, E.bv(0, 32)))); }
  }
  for (size_t t = 1; t < roots.size(); t++) if (roots[t]) { Ev* s = roots[t]->evs[0]; for (Ev* c : creates[t]) assertS(E.IMP(E.AND(roots[t]->exec, c->n->exec), E.AND(E.TT, ltS(c->seg, s->seg)))); }
  for (Ev* j : joinEvs) { vector<Z3_ast> c{E.NOT(j->n->exec)}; for (Ev* e : ends[j->arg]) { c.push_back(e->n->exec); assertS(E.IMP(E.AND(j->n->exec, e->n->exec), ltS(e->seg, j->seg))); } assertS(E.ORv(c)); }
  for (Ev* w : events) if (w->k == E_WAKE && w->arg == 1) {
    Ev* wb = waitOfNode(w->n->preds[0]); vector<Z3_ast> c{E.NOT(w->n->exec)};
    for (Ev* nt : notifies[wb->addr]) {
      if (nt->tid == w->tid) continue; Rel a = rel(nt, wb), b = rel(nt, w); if (a == BEF || b == AFT) continue;
      Z3_ast v = nb("m"); match[w].push_back({nt, v}); assertS(E.IMP(v, E.AND(nt->n->exec, w->n->exec))); assertS(E.IMP(v, lt(wb, nt))); assertS(E.IMP(v, lt(nt, w))); c.push_back(v);
    }
    assertS(E.ORv(c));
  }
  // a notify_one wakes at most one waiter
  { std::map<Ev*, vector<std::pair<Ev*, Z3_ast>>> by; for (auto& m : match) for (auto& p : m.second) if (!p.first->all) by[p.first].push_back({m.first, p.second});
    for (auto& x : by) for (size_t i = 0; i < x.second.size(); i++) for (size_t j = 0; j < i; j++) { if (x.second[i].first->tid == x.second[j].first->tid && sameThread(x.second[i].first, x.second[j].first) == EXC) continue; assertS(E.NOT(E.AND(x.second[i].second, x.second[j].second))); } }
  // safe: no access after the object was destroyed
  for (auto& f : frees) for (Ev* fe : f.second) {
    for (Ev* a : accs[f.first]) { if (a->tid == fe->tid) continue; Rel q = rel(a, fe); if (q == BEF || q == EXC) continue; Z3_ast both = E.AND(E.AND(safe, a->n->exec), fe->n->exec); assertS(E.IMP(both, q == AFT ? E.FF : lt(a, fe))); }
    for (Ev* g : f.second) if (g->id < fe->id && g->tid != fe->tid) assertS(E.NOT(E.AND(E.AND(safe, g->n->exec), fe->n->exec)));
  }
}

void Conc::pendings() {
  pend.clear();
  for (Node* n : nodes) {
    if (n->stop == S_FORK && !(n->fbool && n->kids.size() == 2)) {
      vector<Z3_ast> c{n->exec}; for (auto& k : n->kids) c.push_back(n->fbool ? (k.first ? E.NOT(n->fe) : n->fe) : E.NOT(Z3_mk_eq(C, n->fe, E.bv(k.first, E.widthOf(n->fe)))));
      Z3_ast l = nb("p"); assertS(E.IMP(l, E.ANDv(c))); pend.push_back({l, n, 0});
    } else if (n->stop == S_WAIT) {
      for (int md = 1; md <= 3; md++) if ((n->modes >> md & 1) && !n->kids.count(md)) {
        Ev* wb = waitOfNode(n); vector<Z3_ast> c{n->exec}; for (auto& k : n->kids) c.push_back(E.NOT(k.second->exec));
        if (md == 1) { vector<Z3_ast> o; for (Ev* nt : notifies[wb->addr]) if (nt->tid != wb->tid && rel(nt, wb) != BEF) {
            Z3_ast x = E.AND(nt->n->exec, lt(wb, nt)); if (!nt->all) for (auto& m : match) for (auto& p : m.second) if (p.first == nt) x = E.AND(x, E.NOT(p.second)); o.push_back(x); }
          c.push_back(E.ORv(o)); }
        Z3_ast l = nb("p"); assertS(E.IMP(l, E.ANDv(c))); pend.push_back({l, n, md});
      }
    } else if (n->stop == S_VIOL) pend.push_back({n->exec, n, 0});
  }
}
void Conc::extract(Z3_model m, vector<SchedItem>& sched) {
  std::unordered_map<Seg*, vector<Ev*>> by; for (Ev* e : events) if (tr(m, e->n->exec)) by[e->seg].push_back(e);
  for (Seg* g : sortedSegs(m)) {
    auto& v = by[g]; std::sort(v.begin(), v.end(), [&](Ev* a, Ev* b) { return sameThread(a, b) == BEF; });
    for (Ev* e : v) if (e->k == E_END) sched.push_back({e->tid, ~0ull, 0}); else if (e->k != E_START) sched.push_back({e->tid, e->pos, e->k == E_WAKE ? (int)e->arg : 0});   // the last position is never completed: run to the end
  }
  for (auto& x : simIn) x.clear();
  for (Node* n : nodes) if (tr(m, n->exec)) for (auto& i : n->insyms) simIn[n->tid][i.first] = E.evalModel(m, i.second);
}
