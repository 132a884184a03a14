#include "conc.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <iostream>
#include <cxxabi.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
Opts O;
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string dem(const string& s) { int st; char* p = abi::__cxa_demangle(s.c_str(), 0, 0, &st); if (!p) return s; string r = p; free(p); return r; }

static string render(const Cex& c, const vector<string>& threadNames) {
  string j = "{\"kind\":\"" + esc(c.kind) + "\",\"msg\":\"" + esc(c.msg) + "\",\"where\":\"" + esc(c.where) + "\",\"sim\":\"" + esc(c.simMsg) + "\",\"inputs\":["; bool f2 = true;
  for (auto& i : c.inputs) { j += string(f2 ? "" : ",") + "[\"" + esc(std::get<0>(i)) + "\",\"" + esc(std::get<1>(i)) + "\"," + std::to_string(std::get<2>(i)) + "]"; f2 = false; }
  j += "],\"schedule\":["; f2 = true;
  for (auto& s : c.sched) { j += string(f2 ? "" : ",") + "[\"" + (s.tid < (int)threadNames.size() ? threadNames[s.tid] : std::to_string(s.tid)) + "\"," + std::to_string(s.apoint) + "," + std::to_string(s.wake) + ",\"" + esc(s.what) + "\"]"; f2 = false; }
  return j + "],\"replay\":[" + c.replay + "]}";
}
// One sub-case: the interleavings after a sequential prefix.  Its result travels to the parent as text lines.
// source lines (with the places they are inlined into) of the executed instructions
static void lines(const void* l, std::set<string>& o) {
  for (auto* d = (const llvm::DILocation*)l; d; d = d->getInlinedAt()) o.insert(d->getFilename().str() + ":" + std::to_string(d->getLine()));
}
static void subcase(Eng& E, State& s, FILE* o) {
  ConcStats cs; string error; u32 nt = 1;
  try {
    Conc c(E, s, cs); E.simReach = true;
    try { c.run(); } catch (EngineError& e) { error = e.msg; }
    nt = c.threads.size(); vector<string> names; for (auto& t : c.threads) names.push_back(t.name);
    for (auto& x : c.cex) fprintf(o, "C %s\n", render(x, names).c_str());
    for (auto& x : c.okTraces) fprintf(o, "N %s\n", x.c_str());
  } catch (EngineError& e) { error = e.msg; }
  if (!error.empty()) fprintf(o, "E %s\n", esc(error).c_str());
  if (!cs.inconclusive.empty()) fprintf(o, "I %s\n", cs.inconclusive.c_str());
  u64 v[] = {cs.nodes, cs.events, cs.rfs, cs.clauses, cs.pairs, cs.rounds, cs.builds, cs.segs, cs.merges, cs.sims, cs.cuts, cs.queries, E.totalSteps, E.undefReads, nt};
  fprintf(o, "S"); for (u64 x : v) fprintf(o, " %lu", (unsigned long)x); fprintf(o, "\nT %.3f\n", cs.solve);
  for (auto& l : E.reached) fprintf(o, "R %s\n", l.c_str());
  for (auto* f : E.encoded) fprintf(o, "F %s\n", f->getName().str().c_str());
  std::set<string> ls; for (auto* l : E.seenLoc) lines(l, ls); for (auto& l : ls) fprintf(o, "L %s\n", l.c_str());
  fprintf(o, "X\n");
}

int main(int argc, char** argv) {
  string mod, entry, out, quiet, covFile; std::set<string> covLines; vector<string> pos;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "-v") O.verbose++; else if (a == "--timeout") O.timeout = atof(nx().c_str());
    else if (a == "--no-leak") O.leak = false; else if (a == "--no-race") O.race = false; else if (a == "--no-deadlock") O.deadlock = false; else if (a == "--spur") O.spurBudget = atoi(nx().c_str()); else if (a == "--tmo") O.tmoBudget = atoi(nx().c_str());
    else if (a == "--solver") O.solver = nx(); else if (a == "--sims") O.simRuns = atoi(nx().c_str()); else if (a == "--dump") O.dumpTree = true; else if (a == "--seed") O.seed = atoi(nx().c_str()); else if (a == "--quiet-fns") quiet = nx(); else if (a == "--bits") O.bits = atoi(nx().c_str());
    else if (a == "--tier") nx(); else if (a == "--cov") { covFile = nx(); O.cov = true; } else if (a == "--jobs") O.jobs = atoi(nx().c_str()); else if (a == "--max-steps") O.maxSteps = atoi(nx().c_str()); else if (a == "--max-decisions") O.maxDecisions = atoi(nx().c_str());
    else pos.push_back(a);
  }
  auto T0 = std::chrono::steady_clock::now();
  LLVMContext L; SMDiagnostic err; std::unique_ptr<Module> M;
  std::set<string> before; size_t nmod = 0; for (auto& p : pos) { if (++nmod == 3) for (auto& f : *M) if (!f.isDeclaration()) before.insert(f.getName().str());
    auto m = parseIRFile(p, err, L); if (!m) { err.print("vpsym", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 3; }
  Eng E; E.L = &L; E.M = M.get(); E.DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config(); E.C = Z3_mk_context(cfg); E.TT = Z3_mk_true(E.C); E.FF = Z3_mk_false(E.C);
  Z3_set_error_handler(E.C, [](Z3_context c, Z3_error_code e) { throw EngineError{string("z3: ") + Z3_get_error_msg(c, e)}; });
  if (nmod >= 3) for (auto& f : *M) if (!f.isDeclaration() && !before.count(f.getName().str())) E.quietFns.insert(f.getName().str());   // engine-only runtime
  if (!quiet.empty()) { std::ifstream f(quiet); string l; while (std::getline(f, l)) E.quietFns.insert(l); }
  string status = "ok", error; vector<Cex> cex; vector<string> cexJson, okT; ConcStats cs; vector<State*> todo; std::set<string> fnNames; u64 paths = 0, seqQ = 0, conc = 0, dead = 0; double seqT = 0; u32 nthreads = 1;
  std::map<string, u64> symInputs;
  try {
    E.setup();
    Function* f = M->getFunction(entry); if (!f) throw EngineError{"no entry " + entry};
    Z3_solver S = Z3_mk_solver_for_logic(E.C, Z3_mk_string_symbol(E.C, "QF_BV")); Z3_solver_inc_ref(E.C, S);
    auto sat = [&](const vector<Z3_ast>& pc, Z3_ast extra, Z3_model* m) {
      auto t = std::chrono::steady_clock::now(); seqQ++;
      Z3_solver_push(E.C, S); for (auto p : pc) Z3_solver_assert(E.C, S, p); if (extra) Z3_solver_assert(E.C, S, extra);
      Z3_params p = Z3_mk_params(E.C); Z3_params_inc_ref(E.C, p); Z3_params_set_uint(E.C, p, Z3_mk_string_symbol(E.C, "timeout"), (unsigned)(O.timeout * 1000)); Z3_solver_set_params(E.C, S, p); Z3_params_dec_ref(E.C, p);
      auto tq = std::chrono::steady_clock::now(); Z3_lbool r = Z3_solver_check(E.C, S); if (O.verbose > 1 && std::chrono::duration<double>(std::chrono::steady_clock::now() - tq).count() > 1) fprintf(stderr, "slow query %.1f -> %d\n%s\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - tq).count(), r, Z3_solver_to_string(E.C, S)); if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(E.C, S); Z3_model_inc_ref(E.C, *m); }
      Z3_solver_pop(E.C, S, 1); seqT += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
      if (r == Z3_L_UNDEF) throw EngineError{"sequential query undecided"}; return r == Z3_L_TRUE;
    };
    vector<State*> stack; State* s0 = new State; s0->mem = &s0->own; s0->own = E.globals0;
    { // global constructors run in the harness entry via rt
    }
    E.enter(*s0, f, {}); stack.push_back(s0);
    while (!stack.empty() && cex.empty()) {
      State* s = stack.back(); stack.pop_back();
      E.mode = M_SEQ; E.newSyms = nullptr; E.onAssume = [&](State& st, Z3_ast) { if (!sat(st.pc, nullptr, nullptr)) throw Stop{S_DEAD}; };
      auto mkCex = [&](const string& k, const string& m, const string& w) { Cex c; c.kind = k; c.msg = m; c.where = w; Z3_model mo = nullptr; sat(s->pc, nullptr, &mo); for (auto& i : s->inputs) c.inputs.push_back({"main", i.first, E.evalModel(mo, i.second)}); c.simMsg = "sequential"; c.simConfirmed = true; for (auto& i : c.inputs) c.replay += (c.replay.empty() ? "\"I 0 " : ",\"I 0 ") + std::to_string(std::get<2>(i)) + " " + std::get<1>(i) + "\""; cex.push_back(c); };
      try {
        try { for (;;) E.step(*s); }
        catch (Fork& fk) {
          if (std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > O.timeout) { cs.inconclusive = "time limit (sequential)"; break; }
          if (s->decisions++ > O.maxDecisions) { cs.cuts++; continue; }
          vector<std::pair<u64, Z3_ast>> alts;
          if (fk.isBool) alts = {{1, fk.e}, {0, E.NOT(fk.e)}};
          else { vector<Z3_ast> ne; for (int i = 0; i < 600; i++) { Z3_model m; auto pc = s->pc; for (auto x : ne) pc.push_back(x); if (!sat(pc, nullptr, &m)) break; u64 v = E.evalModel(m, fk.e); Z3_ast q = Z3_mk_eq(E.C, fk.e, E.bv(v, E.widthOf(fk.e))); alts.push_back({v, q}); ne.push_back(E.NOT(q)); if (i == 599) cs.cuts++; } }
          vector<State*> nk;
          for (auto& a : alts) { if (fk.isBool && !sat(s->pc, a.second, nullptr)) continue; State* n = new State(*s); n->mem = &n->own; n->pc.push_back(a.second); E.learn(*n, fk.e, a.first); nk.push_back(n); }
          for (auto it = nk.rbegin(); it != nk.rend(); ++it) stack.push_back(*it);
          delete s; continue;
        }
      } catch (Stop& p) {
        if (p.k == S_DONE) { paths++;
          if ((paths & (paths - 1)) == 0) { Z3_model mo = nullptr; if (sat(s->pc, nullptr, &mo)) { string r, l; for (auto& i : s->inputs) r += (r.empty() ? "\"I 0 " : ",\"I 0 ") + std::to_string(E.evalModel(mo, i.second)) + " " + i.first + "\""; for (auto& x : s->reachedLbl) l += (l.empty() ? "\"" : ",\"") + x + "\""; okT.push_back("{\"lines\":[" + r + "],\"reach\":[" + l + "]}"); } }
          for (auto& l : s->reachedLbl) E.reached.insert(l); if (O.leak) for (auto& l : s->live) if (!E.noLeak.count(l.first)) { mkCex("leak", "object is never destroyed: " + E.objs[l.first]->name, ""); break; } }
        else if (p.k == S_CREATE) {
          if (s->expTerm) throw EngineError{"expect_terminate with threads"};
          paths++; conc++; for (auto& l : s->reachedLbl) E.reached.insert(l);
todo.push_back(s); s = nullptr;
        } else if (p.k == S_CUT) cs.cuts++; else if (p.k == S_DEAD) dead++;
      } catch (Violation& v) { if (s->expTerm && v.kind == "terminate") { paths++; E.reached.insert("terminated"); for (auto& l : s->reachedLbl) E.reached.insert(l); } else mkCex(v.kind, v.msg, E.where(*s)); }
      delete s;
    }
  } catch (EngineError& e) { status = "error"; error = e.msg; }
  for (auto& c : cex) cexJson.push_back(render(c, {"main"}));
  // the sub-cases: one process each, as many at a time as there are job tokens
  int tokR = -1, tokW = -1; if (const char* e = getenv("VP_TOKENS")) sscanf(e, "%d,%d", &tokR, &tokW);
  struct Kid { pid_t pid; int fd; string buf; char tok; bool closed; }; vector<Kid> kids; size_t next = 0; u64 s0 = E.totalSteps, u0 = E.undefReads; int maxJobs = O.jobs, starved = 0;
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
  while (cexJson.empty() && error.empty() && cs.inconclusive.empty() && (next < todo.size() || !kids.empty())) {
    if (elapsed() > O.timeout) { cs.inconclusive = "time limit"; break; }
    if (next < todo.size() && (int)kids.size() < maxJobs) {
      char tok = 0; bool got = tokR < 0;
      if (tokR >= 0) { struct pollfd pf{tokR, POLLIN, 0}; if (poll(&pf, 1, kids.empty() ? 500 : 0) > 0 && read(tokR, &tok, 1) == 1) got = true; else if (kids.empty() && ++starved >= 60) { got = true; tok = 0; } if (got) starved = 0; }   // tokens may have been lost with a crashed process: never wait for ever
      if (got) {
        int p[2]; if (pipe(p)) { perror("pipe"); return 3; }
        pid_t k = fork();
        if (k < 0) { close(p[0]); close(p[1]); if (tokW >= 0 && tok && write(tokW, &tok, 1) != 1) perror("token"); usleep(300000); continue; }
        if (!k) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(p[0]); FILE* o = fdopen(p[1], "w"); O.timeout = std::max(1.0, O.timeout - elapsed()); E.totalSteps = E.undefReads = 0; E.reached.clear(); E.seenLoc.clear(); for (auto& l : todo[next]->reachedLbl) E.reached.insert(l); subcase(E, *todo[next], o); fflush(o); _exit(0); }
        close(p[1]); delete todo[next]; next++; kids.push_back({k, p[0], "", tok, false}); continue;
      }
    }
    if (kids.empty()) continue;
    vector<struct pollfd> pf; for (auto& k : kids) pf.push_back({k.fd, POLLIN, 0});
    if (poll(pf.data(), pf.size(), 50) <= 0) continue;
    for (size_t i = 0; i < kids.size(); i++) if (pf[i].revents) { char b[65536]; ssize_t n = read(kids[i].fd, b, sizeof b); if (n > 0) kids[i].buf.append(b, n); else kids[i].closed = true; }
    for (size_t i = 0; i < kids.size();) {
      if (!kids[i].closed) { i++; continue; }
      Kid k = kids[i]; kids.erase(kids.begin() + i); close(k.fd); int stt; waitpid(k.pid, &stt, 0); if (tokW >= 0 && k.tok) if (write(tokW, &k.tok, 1) != 1) perror("token");
      size_t a = 0; bool fin = false;
      while (a < k.buf.size()) {
        size_t e = k.buf.find('\n', a); if (e == string::npos) break; string l = k.buf.substr(a, e - a); a = e + 1; if (l.empty()) continue; string r = l.size() > 2 ? l.substr(2) : "";
        switch (l[0]) {
          case 'C': cexJson.push_back(r); break; case 'N': okT.push_back(r); break; case 'E': error = r; break; case 'I': cs.inconclusive = r; break; case 'T': cs.solve += atof(r.c_str()); break; case 'R': E.reached.insert(r); break; case 'F': fnNames.insert(r); break; case 'L': covLines.insert(r); break; case 'X': fin = true; break;
          case 'S': { vector<u64> v; char* q = &r[0]; for (int i = 0; i < 15; i++) v.push_back(strtoull(q, &q, 10)); u64* d[] = {&cs.nodes, &cs.events, &cs.rfs, &cs.clauses, &cs.pairs, &cs.rounds, &cs.builds, &cs.segs, &cs.merges, &cs.sims, &cs.cuts, &cs.queries, &s0, &u0}; for (int i = 0; i < 14; i++) *d[i] += v[i]; nthreads = std::max<u32>(nthreads, v[14]); }
        }
      }
      if (!fin && error.empty()) error = "sub-case process ended with status " + std::to_string(stt);
    }
  }
  for (auto& k : kids) { kill(k.pid, SIGKILL); waitpid(k.pid, nullptr, 0); if (tokW >= 0 && k.tok) if (write(tokW, &k.tok, 1) != 1) perror("token"); }
  E.totalSteps = s0; E.undefReads = u0; for (auto* f : E.encoded) fnNames.insert(f->getName().str());
  if (O.cov) {
    for (auto* l : E.seenLoc) lines(l, covLines); std::ofstream o(covFile); for (auto& l : covLines) o << "H " << l << "\n";
    std::set<string> all; for (auto& f : *E.M) for (auto& bb : f) for (auto& i : bb) if (i.getDebugLoc()) lines(i.getDebugLoc().get(), all); for (auto& l : all) o << "A " << l << "\n";
  }
  if (!error.empty() && cexJson.empty()) status = "error"; else if (!cexJson.empty()) status = "ok";
  if (status == "ok") status = !cexJson.empty() ? "violation" : !cs.inconclusive.empty() ? "inconclusive" : "ok";
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
  string j = "{\"entry\":\"" + esc(entry) + "\",\"status\":\"" + status + "\",\"error\":\"" + esc(error) + "\",\"inconclusive\":\"" + esc(cs.inconclusive) + "\"";
  char b[1024]; snprintf(b, 1024, ",\"paths\":%lu,\"dead\":%lu,\"conc\":%lu,\"threads\":%u,\"nodes\":%lu,\"events\":%lu,\"rf\":%lu,\"clauses\":%lu,\"race_pairs\":%lu,\"rounds\":%lu,\"builds\":%lu,\"segments\":%lu,\"merges\":%lu,\"sims\":%lu,\"cuts\":%lu,\"queries\":%lu,\"solver_s\":%.3f,\"steps\":%lu,\"undef_reads\":%lu,\"wall\":%.3f",
    (unsigned long)paths, (unsigned long)dead, (unsigned long)conc, nthreads, (unsigned long)cs.nodes, (unsigned long)cs.events, (unsigned long)cs.rfs, (unsigned long)cs.clauses, (unsigned long)cs.pairs, (unsigned long)cs.rounds, (unsigned long)cs.builds, (unsigned long)cs.segs, (unsigned long)cs.merges, (unsigned long)cs.sims, (unsigned long)cs.cuts, (unsigned long)(cs.queries + seqQ), cs.solve + seqT, (unsigned long)E.totalSteps, (unsigned long)E.undefReads, wall);
  j += b; j += ",\"reached\":["; bool first = true; for (auto& l : E.reached) { j += (first ? "\"" : ",\"") + esc(l) + "\""; first = false; } j += "],\"functions\":["; first = true;
  for (auto& f : fnNames) { string d = dem(f); if (d.find("pc::") == string::npos && d.find("portable_concurrency") == string::npos) continue; j += (first ? "\"" : ",\"") + esc(d.substr(0, 160)) + "\""; first = false; }
  j += "],\"traces\":["; first = true; for (auto& x : okT) { j += (first ? "" : ",") + x; first = false; }
  j += "],\"cex\":["; first = true;
  for (auto& c : cexJson) { j += (first ? "" : ",") + c; first = false; }
  j += "]}\n";
  if (!out.empty()) { std::ofstream o(out); o << j; } else std::cout << j;
  return status == "ok" ? 0 : status == "violation" ? 1 : 2;
}
