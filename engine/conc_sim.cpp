#include "conc.h"
int Conc::simCreate(State& s, u64 fn, u64 arg) {
  int t = threadId(s.tid, Eng::pos(s), fn, arg); while ((int)sim.size() <= t) sim.emplace_back();
  sim[t].started = true; sim[t].s = threadState(t, true); simCreates.push_back({t, s.tid, s.apoints}); return t;
}
bool Conc::simRunnable(SimT& t) {
  if (!t.started || t.done) return false;
  if (t.stop == S_LOCK) { ObjMeta* m = E.find(t.arg); return E.norm(t.s, E.rawRead(t.s, E.data(t.s, m, false), t.arg - m->base, 4, 0)).c == 0; }
  if (t.stop == S_JOIN) return sim[t.arg].done;
  if (t.stop == S_WAIT) return t.notified;
  return true;
}
bool Conc::simStep(int i, int wakeMode) {  // returns false on end of simulation (violation)
  SimT& t = sim[i]; int wakeM = 0; u64 ps = Eng::pos(t.s); u32 ap0 = t.s.apoints;
  if (t.stop == S_LOCK || t.stop == S_JOIN) { t.s.granted = true; t.stop = S_NONE; }
  else if (t.stop == S_WAIT) { t.s.granted = true; t.s.grantMode = wakeMode; simO->wake[i][Eng::pos(t.s)] = wakeMode; if (wakeMode == 1 && !t.notified) for (auto& o : sim) if (o.notified && o.waitOn == t.waitOn) { o.notified = false; break; } wakeM = wakeMode; t.stop = S_NONE; t.notified = false; t.waitOn = 0; }
  t.s.evt = false;
  string what; if (O.traceText && E.counts(&*t.s.st.back().it)) what = E.where(t.s);
  try { E.step(t.s); t.donePos.insert(ps); }
  catch (Stop& p) { if (p.k == S_DONE) { t.done = true; t.donePos.insert(ps); } else if (p.k == S_CUT || p.k == S_DEAD) { simViol = p.k == S_CUT ? "cut" : "dead"; return false; } else { t.stop = p.k; t.arg = p.arg; t.arg2 = p.arg2; } }
  catch (Violation& v) { simViol = v.kind + ": " + v.msg; simViolTid = i; return false; }
  if (t.s.apoints != ap0 || wakeM) { if (!trace.empty() && trace.back().tid == i && !wakeM && !trace.back().wake) { trace.back().apoint = t.s.apoints; if (t.s.evt && !what.empty()) trace.back().what = what; } else trace.push_back({i, t.s.apoints, wakeM, what}); }
  return true;
}
void Conc::keep(Oracle* o) {   // only executions in which some thread behaves in a new way
  bool fresh = false;
  for (int t = 0; t < 32; t++) if (o->has[t]) { u64 h = t; for (auto& d : o->dec[t]) h += Eng::mix(d.first, d.second * 2 + 1); for (auto& d : o->wake[t]) h += Eng::mix(d.first, d.second * 2); if (oHash[t].insert(h).second) fresh = true; }
  if (fresh) oracles.push_back(o); else delete o;
}
Oracle* Conc::simulate(const vector<SchedItem>& sched, Z3_model model, bool randomise) {
  if (O.verbose > 4) fprintf(stderr, "SIM\n");
  st.sims++; simO = new Oracle; Z3_model_inc_ref(C, model); trace.clear(); simCreates.clear(); simInputs.clear(); E.simReached = root0.reachedLbl; simViolTid = -1; for (auto& i : root0.inputs) simInputs.push_back({0, i.first, E.evalModel(model, i.second)}); simMem = *base; E.simFreed.clear(); for (auto& f : root0.freed) E.simFreed[f.first] = 1;
  sim.clear(); sim.reserve(40); sim.resize(1); sim[0].started = true; sim[0].s = root0; sim[0].s.mem = &simMem; sim[0].s.base = nullptr; sim[0].s.own.clear(); simViol.clear();
  E.onCreate = [this](State& s, u64 fn, u64 arg) { return simCreate(s, fn, arg); };
  E.mode = M_SIM; E.simModel = model; E.newSyms = nullptr; E.curNode = nullptr;
  E.simLog = [this](State& s, u64 k, u64 v) { simO->dec[s.tid][k] = v; };
  E.simNondet = [this](State& s, u64 k, unsigned w, const string& nm) -> u64 { u64 v; auto it = simIn[s.tid].find(k); if (it != simIn[s.tid].end()) v = it->second; else if (w == 1) v = rnd() & 1; else { u64 r = rnd() % 8; v = r < 5 ? r : rnd(); } v = Eng::mask(v, w); simInputs.push_back({s.tid, nm, v}); return v; };
  E.simCv = [this](State& s, u64 cv, int what) {
    if (what == 0) { sim[s.tid].waitOn = cv; sim[s.tid].notified = false; return; }
    vector<SimT*> w; for (auto& t : sim) if (t.started && !t.done && t.waitOn == cv && !t.notified) w.push_back(&t);
    if (what == 1) { if (!w.empty()) w[rnd() % w.size()]->notified = true; } else for (auto* t : w) t->notified = true;
  };
  u64 guard = 0; schedOk = true;
  for (auto& it : sched) {
    if (it.tid >= (int)sim.size() || !sim[it.tid].started) { schedOk = false; break; }
    bool go = true;
    while (go && !sim[it.tid].done && !sim[it.tid].donePos.count(it.pos)) {
      SimT& t = sim[it.tid];
      if (t.stop == S_WAIT) { if (it.wake == 0) { go = false; break; } if (!simStep(it.tid, it.wake)) goto out; continue; }
      if (!simRunnable(t)) { go = false; break; }
      if (!simStep(it.tid, 1)) goto out;
      if (++guard > O.maxSteps) goto out;
    }
    if (!go) { if (O.verbose > 1) { SimT& t = sim[it.tid]; fprintf(stderr, "NOT FOLLOWED t%d pos %llx wake %d stop %d at %s\n", it.tid, (unsigned long long)it.pos, it.wake, t.stop, E.where(t.s).c_str()); } schedOk = false; break; }
  }
  if (!simTail) goto out;
  {
    int cur = -1; u64 quantum = 0;
    for (;;) {
      if (++guard > O.maxSteps) { simViol = "cut"; break; }
      if (cur < 0 || !simRunnable(sim[cur]) || quantum == 0) {
        vector<int> r; for (int i = 0; i < (int)sim.size(); i++) if (simRunnable(sim[i])) r.push_back(i);
        if (r.empty() || (randomise && rnd() % 40 == 0)) {
          vector<std::pair<int, int>> alt; for (int i = 0; i < (int)sim.size(); i++) if (sim[i].started && !sim[i].done && sim[i].stop == S_WAIT && !sim[i].notified) { if (sim[i].arg2 && sim[i].s.tmo < O.tmoBudget) alt.push_back({i, 3}); if (!r.empty() && sim[i].s.spur < O.spurBudget) alt.push_back({i, 2}); }
          if (!alt.empty()) { auto a = alt[rnd() % alt.size()]; if (!simStep(a.first, a.second)) break; continue; }
          if (r.empty()) { bool all = true; for (auto& t : sim) if (t.started && !t.done) all = false; if (!all) simViol = "deadlock"; break; }
        }
        cur = randomise ? r[rnd() % r.size()] : (std::find(r.begin(), r.end(), cur) != r.end() ? cur : r[0]);
        quantum = randomise ? (simStyle ? 1 + rnd() % (1ull << rnd() % 9) : 1 + rnd() % (rnd() % 4 == 0 ? 3 : 40)) : 1000000;
      }
      if (!simStep(cur, 1)) break;
      if (sim[cur].s.evt) quantum--;
    }
  }
out:
  for (size_t i = 0; i < sim.size(); i++) simO->has[i] = sim[i].started;
  Z3_model_dec_ref(C, model);
  E.onCreate = nullptr; E.mode = M_TREE; E.flips = false; return simO;
}

string Conc::replayText() {   // what rt_native.cpp needs to repeat the last simulation
  string r; auto add = [&](const string& l) { r += (r.empty() ? "\"" : ",\"") + l + "\""; };
  for (auto& c : simCreates) add("T " + std::to_string(std::get<0>(c)) + " " + std::to_string(std::get<1>(c)) + " " + std::to_string(std::get<2>(c)));
  for (auto& i : simInputs) add("I " + std::to_string(std::get<0>(i)) + " " + std::to_string(std::get<2>(i)) + " " + std::get<1>(i));
  for (auto& t : trace) add("S " + std::to_string(t.tid) + " " + std::to_string(t.apoint) + " " + std::to_string(t.wake));
  if (simViolTid >= 0) add("P " + std::to_string(simViolTid));
  return r;
}
void Conc::sample(u32 max) {   // a completed execution for the native validation of the translation
  if (!simViol.empty() || !schedOk || okTraces.size() >= max) return;
  if (O.verbose > 4) fprintf(stderr, "TRACE %s\n", replayText().c_str());
  string l; for (auto& x : E.simReached) l += (l.empty() ? "\"" : ",\"") + x + "\"";
  okTraces.push_back("{\"lines\":[" + replayText() + "],\"reach\":[" + l + "]}");
}
