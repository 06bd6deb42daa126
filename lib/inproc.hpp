// In-process access to the planner's own data structures (model, search nodes), always inside a forked child.
#pragma once
#include "fw.hpp"
#include "Model.h"
#include "ProgressionNetwork.h"
#include "VisitedList.h"
namespace fw {
// Runs f in a child; whatever verdict it fills in comes back.  Engine chatter on stdout is dropped.
inline Verdict in_child(Verdict v, const std::function<void(Verdict &)> &f, int cpuMs = 5000, bool hangFails = true) {
  Run r = run_child([&]() {
    std::streambuf *old = std::cout.rdbuf(); std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf());
    Verdict w; f(w); std::cout.rdbuf(old);
    std::ostringstream o; o << "\n@@BEGIN\n" << int(w.k) << " " << w.nontrivial << "\n" << w.cls << "\n"; string m = w.msg; for (char &c : m) if (c == '\n') c = '\x01'; o << m << "\n"; string s = w.sample; for (char &c : s) if (c == '\n') c = ' '; o << s << "\n" << w.tags.size() << "\n"; for (auto &t : w.tags) o << t << "\n"; o << "@@END\n";
    string z = o.str(); size_t q = 0; while (q < z.size()) { ssize_t k = write(1, z.data() + q, z.size() - q); if (k <= 0) break; q += k; } _exit(0);
  }, cpuMs);
  if (r.cpu && (r.killed || !hangFails)) { v.k = Verdict::SKIP; v.cls = "cpu-limit"; return v; }
  if (r.cpu) { v.k = Verdict::FAIL; v.cls = "does-not-terminate"; v.msg = "still running after " + std::to_string(cpuMs) + " ms of processor time on a problem of this size"; return v; } // these computations take milliseconds
  size_t b = r.out.rfind("\n@@BEGIN\n");
  if (r.sig || r.code || b == string::npos) { string m = r.sig ? "signal " + std::to_string(r.sig) : "exit code " + std::to_string(r.code); size_t p = r.out.find("ERROR: AddressSanitizer"); if (p == string::npos) p = r.out.find("runtime error:"); if (p != string::npos) m += " | " + r.out.substr(p, 900); v.k = Verdict::FAIL; v.cls = "crash"; v.msg = m; return v; }
  std::istringstream in(r.out.substr(b + 9)); int k, nt; size_t n; in >> k >> nt; in.get(); string m; std::getline(in, v.cls); std::getline(in, m); for (char &c : m) if (c == '\x01') c = '\n'; v.msg = m; std::getline(in, v.sample); in >> n; in.get(); for (size_t i = 0; i < n; i++) { std::getline(in, m); v.tags.insert(m); }
  v.k = Verdict::K(k); v.nontrivial = nt; return v;
}
inline progression::Model *load(const Problem &p, bool effLess = true, bool oneMod = true, bool prep = true, progression::eMaintainTaskReachability mtr = progression::mtrACTIONS) {
  auto *m = new progression::Model(true, mtr, effLess, oneMod); m->filename = "in.sas"; std::istringstream *in = new std::istringstream(to_sas(p)); m->read(in); (void)prep; return m;
}
inline progression::searchNode *root_node(progression::Model *m) { auto *n = m->prepareTNi(m); m->calcSCCs(); m->calcSCCGraph(); m->updateReachability(n); return n; }

// a task network as a labelled dag
struct Net { vector<int> task; vector<vector<char>> e; vector<vector<char>> c; vector<progression::planStep *> ps; };
inline Net net_of(progression::searchNode *n) {
  Net g; map<progression::planStep *, int> id; std::function<void(progression::planStep *)> go = [&](progression::planStep *s) { if (id.count(s)) return; id[s] = g.task.size(); g.task.push_back(s->task); g.ps.push_back(s); for (int i = 0; i < s->numSuccessors; i++) go(s->successorList[i]); };
  for (int i = 0; i < n->numAbstract; i++) go(n->unconstraintAbstract[i]); for (int i = 0; i < n->numPrimitive; i++) go(n->unconstraintPrimitive[i]);
  int k = g.task.size(); g.e.assign(k, vector<char>(k, 0)); for (int i = 0; i < k; i++) for (int j = 0; j < g.ps[i]->numSuccessors; j++) g.e[i][id[g.ps[i]->successorList[j]]] = 1;
  g.c = g.e; for (int x = 0; x < k; x++) for (int i = 0; i < k; i++) if (g.c[i][x]) for (int j = 0; j < k; j++) if (g.c[x][j]) g.c[i][j] = 1; return g; }
inline TN tn_of(const Net &g) { TN t; t.task = g.task; int k = g.task.size(); t.pred.assign(k, 0); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (g.c[j][i]) t.pred[i] |= 1u << j; return t; }
inline string show(const Net &g, progression::Model *m) { string s = "{"; for (size_t i = 0; i < g.task.size(); i++) s += (i ? " " : "") + std::to_string(i) + ":" + m->taskNames[g.task[i]]; s += " |"; for (size_t i = 0; i < g.task.size(); i++) for (size_t j = 0; j < g.task.size(); j++) if (g.e[i][j]) s += " " + std::to_string(i) + "<" + std::to_string(j); return s + "}"; }
// breadth-first / random exploration of search nodes (no duplicate detection)
inline vector<progression::searchNode *> explore(progression::Model *m, Rng &r, int limit) {
  vector<progression::searchNode *> all{root_node(m)}; size_t head = 0;
  while (head < all.size() && (int)all.size() < limit) {
    auto *n = all[head++];
    if (n->numAbstract == 0) { for (int i = 0; i < n->numPrimitive && (int)all.size() < limit; i++) if (m->isApplicable(n, n->unconstraintPrimitive[i]->task)) { auto *x = m->apply(n, i); if (x->goalReachable) all.push_back(x); } }
    else { int k = r.upto(n->numAbstract), t = n->unconstraintAbstract[k]->task; for (int i = 0; i < m->numMethodsForTask[t] && (int)all.size() < limit; i++) { auto *x = m->decompose(n, k, m->taskToMethods[t][i]); if (x->goalReachable) all.push_back(x); } }
    if (r.p(10)) { size_t j = head + r.upto(all.size() - head); if (j < all.size()) std::swap(all[head < all.size() ? head : j], all[j]); }
  }
  return all;
}
} // namespace fw
