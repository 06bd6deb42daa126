// Delete-relaxation heuristics (P05).
#pragma once
#include "heuristics/rcHeuristics/hhRC2.h"
struct P05 : Prop {
  string id() override { return "P05"; }
  string rule() override { return "A case is a generated HTN problem with a set of search nodes; the filter, add, FF and LM-cut heuristics (for one of the three estimates, with or without task-count correction) are evaluated in shuffled order and repeatedly, and compared with independently computed relaxed reachability, h-max, h-add, optimal relaxed plan cost and (when a reference search finishes) true remaining cost. Non-trivial when some node had an LM-cut value above 0 or was unreachable, and three or more nodes were evaluated."; }
  long quickN() override { return 60000; } long thoroughN() override { return 3000000; }
  vector<string> requiredTags() override { return {"total-order", "parallel-chains", "partial-order", "unreachable", "cuts", "ff-exact", "h-plus", "true-cost", "long-preconditions"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 5, i); Case c; c.hasP = true; int k = r.upto(100); c.p = k < 6 ? heavy(r, r.in(8, 30)) : k < 14 ? isoTrap(r) : generate(r, baseOpt(r, th)); if (k < 6) c.ext["_heavy"] = 1; maybeInflate(r, c, 10); c.ext["_seed"] = r.upto(1 << 30); c.ext["est"] = r.upto(3); c.ext["count"] = r.p(50); c.ext["nodes"] = r.in(2, 14); return c; }
  Verdict eval(const Case &c) override { Verdict v0; v0.tags.insert(ordClass(c.p)); if (ex(c, "_heavy")) v0.tags.insert("long-preconditions"); Problem p = withInfl(c); if (p.nF() > 64) { p = c.p; if (p.nF() > 64) { v0.k = Verdict::SKIP; v0.cls = "too-many-facts"; return v0; } }
    return in_child(v0, [&](Verdict &v) {
      Rng r(ex(c, "_seed"), 6, 6); Model *m = load(p); auto nodes = explore(m, r, ex(c, "nodes") * 4); r.shuffle(nodes); if ((long)nodes.size() > ex(c, "nodes")) nodes.resize(ex(c, "nodes"));
      int nF = p.nF(), nA = p.nA(), nT = p.nT(), nM = p.met.size(), NF = nF + nA + nT, NO = nA + nM; eEstimate est = (eEstimate)ex(c, "est"); bool corr = ex(c, "count");
      vector<set<int>> rt(nT); for (int t = 0; t < nT; t++) rt[t].insert(t); for (bool ch = true; ch;) { ch = false; for (auto &x : p.met) for (int s : x.sub) for (int y : set<int>(rt[s])) if (rt[x.task].insert(y).second) ch = true; }
      struct Op { vector<int> pre, add; long cost; }; vector<Op> op(NO);
      for (int a = 0; a < nA; a++) { op[a].pre = p.act[a].pre; op[a].pre.push_back(nF + a); op[a].add = p.act[a].add; op[a].add.push_back(nF + nA + a); op[a].cost = est == estDISTANCE ? 1 : p.act[a].cost; }
      for (int i = 0; i < nM; i++) { set<int> s(p.met[i].sub.begin(), p.met[i].sub.end()); for (int t : s) op[nA + i].pre.push_back(nF + nA + t); op[nA + i].add = {nF + nA + p.met[i].task}; op[nA + i].cost = est == estCOSTS ? 0 : 1; }
      const long INF = 1e12;
      auto reach = [&](const vector<char> &s, const vector<char> &use) { vector<char> q = s; for (bool ch = true; ch;) { ch = false; for (int o = 0; o < NO; o++) if (use[o]) { bool ok = true; for (int f : op[o].pre) if (!q[f]) { ok = false; break; } if (ok) for (int f : op[o].add) if (!q[f]) { q[f] = 1; ch = true; } } } return q; };
      auto relax = [&](const vector<char> &s, bool mx) { vector<long> h(NF, INF); for (int f = 0; f < NF; f++) if (s[f]) h[f] = 0; for (bool ch = true; ch;) { ch = false; for (int o = 0; o < NO; o++) { long x = 0; for (int f : op[o].pre) { if (h[f] >= INF) { x = INF; break; } x = mx ? std::max(x, h[f]) : x + h[f]; } if (x >= INF) continue; x += op[o].cost; for (int f : op[o].add) if (x < h[f]) { h[f] = x; ch = true; } } } return h; };
      vector<long> minD(nT, INF); for (int a = 0; a < nA; a++) minD[a] = 1; for (bool ch = true; ch;) { ch = false; for (auto &M : p.met) { long s = 1; for (int x : M.sub) s += minD[x]; if (s < minD[M.task]) minD[M.task] = s, ch = true; } }
      auto *hLm = new hhRC2<hsLmCut>(m, 0, est, corr); auto *hAdd = new hhRC2<hsAddFF>(m, 1, est, corr); hAdd->sasH->heuristic = sasAdd; auto *hFF = new hhRC2<hsAddFF>(m, 2, est, corr); auto *hFi = new hhRC2<hsFilter>(m, 3, est, corr); Heuristic *hs[4] = {hLm, hAdd, hFF, hFi};
      auto fail = [&](const string &cl, const string &ms) { if (v.k == Verdict::FAIL) return; v.k = Verdict::FAIL; v.cls = cl; v.msg = ms; };
      map<searchNode *, vector<int>> first; int evald = 0; bool pos = false;
      for (int round = 0; round < 2 && v.k != Verdict::FAIL; round++) { if (round) r.shuffle(nodes);
        for (auto *n : nodes) { Net g = net_of(n); if (g.task.size() > 30) continue; bool gr0 = n->goalReachable; n->heuristicValue = new int[4]; vector<int> val(4); vector<vector<int>> cuts; 
          int ord[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; i--) std::swap(ord[i], ord[r.upto(i + 1)]); bool infAny = false;
          for (int q = 0; q < 4; q++) { int i = ord[q]; n->goalReachable = gr0; if (r.p(50)) hs[i]->setHeuristicValue(n, nullptr, 0); else hs[i]->setHeuristicValue(n, nullptr, 0, 0); val[i] = n->heuristicValue[i]; if (n->goalReachable != (gr0 && val[i] != UNREACHABLE)) { fail("goal-flag", "the node's goal-reachable flag does not follow the heuristic value"); return; }
            if (i == 0 && val[0] != UNREACHABLE) for (auto *l : *hLm->cuts) { vector<int> z; for (int k = 0; k < l->size; k++) { if (l->isMethod(k) == l->isAction(k)) fail("cut-kind", "cut element is both or neither action and method"); int x = l->lm[k]; if (x < 0 || x >= (l->isMethod(k) ? nM : nA)) { fail("cut-index", "cut element out of range"); return; } z.push_back(l->isMethod(k) ? nA + x : x); } cuts.push_back(z); } }
          if (first.count(n)) { if (first[n] != val) { fail("unstable", "evaluating a node again gave different values"); return; } n->goalReachable = gr0; continue; }
          first[n] = val; n->goalReachable = gr0; evald++;
          vector<char> s(NF, 0), all(NO, 1), goal(NF, 0); for (int f = 0; f < nF; f++) s[f] = n->state[f]; map<int, int> cnt; for (int t : g.task) { cnt[t]++; for (int x : rt[t]) if (x < nA) s[nF + x] = 1; goal[nF + nA + t] = 1; } for (int f : p.goal) goal[f] = 1;
          auto q = reach(s, all); bool rel = true; for (int f = 0; f < NF; f++) if (goal[f] && !q[f]) rel = false; string where = " in node " + show(g, m);
          const char *nm[4] = {"LM-cut", "add", "FF", "filter"};
          for (int i = 0; i < 4; i++) { if ((val[i] != UNREACHABLE) != rel) { fail("reachability", string(nm[i]) + (rel ? " reports unreachable although the relaxed problem is solvable" : " misses that the relaxed problem is unsolvable") + where); return; } if (rel && val[i] < 0) { fail("negative", string(nm[i]) + where); return; } }
          int truth = -3; if (g.task.size() <= 10) { PORef::Node st; st.cost = 0; st.s = 0; for (int f = 0; f < nF; f++) if (n->state[f]) st.s |= St(1) << f; st.tn = tn_of(g); PORef ref(p, Metric{est == estCOSTS ? 0 : est == estMIXED ? 2 : 1}, 700); truth = ref.solveFrom(st); }
          if (truth >= 0 && !rel) { fail("reference", "oracle inconsistency"); return; }
          if (!rel) { v.tags.insert("unreachable"); pos = true; continue; }
          long corrV = 0; if (corr) for (auto &x : cnt) if (x.second > 1) { if (est == estCOSTS) { if (x.first < nA) corrV += (long)p.act[x.first].cost * (x.second - 1); } else if (est == estDISTANCE) corrV += minD[x.first] * (x.second - 1); }
          long lm = val[0] - corrV, ad = val[1] - corrV, ff = val[2] - corrV;
          if (val[3] != corrV) { fail("filter-value", "filter heuristic is " + S(val[3]) + " expected " + S(corrV) + where); return; }
          auto hm = relax(s, true), ha = relax(s, false); long eh = 0, ea = 0; for (int f = 0; f < NF; f++) if (goal[f]) { eh = std::max(eh, hm[f]); ea += ha[f]; }
          long mop = ea; for (int o = 0; o < NO; o++) { long x = op[o].cost; for (int f : op[o].pre) if (ha[f] < INF) x += ha[f]; mop = std::max(mop, x); }
          if (mop >= INT_MAX - 2) { v.tags.insert("overflow-cut"); if (val[1] != INT_MAX - 2 && ad != ea) { fail("add-overflow", "additive heuristic is " + S(val[1]) + " although its value exceeds the integer range" + where); return; } }
          else if (ad != ea) { fail("add-value", "additive heuristic is " + S(ad) + " (without task-count correction) expected " + S(ea) + where); return; }
          if (lm < eh) { fail("lmcut-low", "LM-cut " + S(lm) + " is below h-max " + S(eh) + where); return; } if (lm > 0) pos = true;
          // cuts: landmarks whose cost partitioning gives the value
          { vector<long> cost(NO); for (int o = 0; o < NO; o++) cost[o] = op[o].cost; long sum = 0; for (auto &z : cuts) { v.tags.insert("cuts"); vector<char> use(NO, 1); long mn = INF; for (int o : z) { use[o] = 0; mn = std::min(mn, cost[o]); } auto q2 = reach(s, use); bool still = true; for (int f = 0; f < NF; f++) if (goal[f] && !q2[f]) still = false; if (still || z.empty()) { fail("cut-no-landmark", "a stored cut is not a landmark: the goal stays relaxed reachable without it" + where); return; } if (mn <= 0 || mn >= INF) { fail("cut-cost", "a stored cut has no cost left" + where); return; } for (int o : z) cost[o] -= mn; sum += mn; } if (sum != lm) { fail("lmcut-sum", "LM-cut " + S(lm) + " differs from the cost of its cuts " + S(sum) + where); return; } }
          // FF: cost of a set of best supporters
          { vector<char> mk(NF, 0), mo(NO, 0); vector<int> stk; for (int f = 0; f < NF; f++) if (goal[f]) stk.push_back(f); bool tie = false; long ub = 0; while (!stk.empty() && !tie) { int f = stk.back(); stk.pop_back(); if (mk[f]) continue; mk[f] = 1; if (s[f]) continue; int b = -1; for (int o = 0; o < NO; o++) { if (std::find(op[o].add.begin(), op[o].add.end(), f) == op[o].add.end()) continue; long x = 0; for (int y : op[o].pre) x = std::max(x, hm[y]); if (x < INF && x + op[o].cost == hm[f]) { if (b >= 0) tie = true; b = o; } } if (b < 0) { fail("reference", "no supporter"); return; } mo[b] = 1; for (int y : op[b].pre) stk.push_back(y); } for (int o = 0; o < NO; o++) { bool ok = true; for (int f : op[o].pre) if (!q[f]) ok = false; if (ok) ub += op[o].cost; }
            long e = 0; for (int o = 0; o < NO; o++) if (mo[o]) e += op[o].cost; if (!tie) { v.tags.insert("ff-exact"); if (ff != e) { fail("ff-value", "FF heuristic is " + S(ff) + " expected " + S(e) + where); return; } } else if (ff < eh || ff > ub) { fail("ff-range", "FF heuristic " + S(ff) + " outside [h-max, cost of all reachable operators] = [" + S(eh) + "," + S(ub) + "]" + where); return; } }
          // optimal relaxed plan
          { vector<int> co; vector<char> use(NO, 0); for (int o = 0; o < NO; o++) { bool ok = true; for (int f : op[o].pre) if (!q[f]) ok = false; if (!ok) continue; if (op[o].cost == 0) use[o] = 1; else co.push_back(o); } if (co.size() <= 11) { v.tags.insert("h-plus"); long best = INF; for (int b = 0; b < (1 << co.size()); b++) { long k = 0; auto u = use; for (size_t i = 0; i < co.size(); i++) if (b >> i & 1) k += op[co[i]].cost, u[co[i]] = 1; if (k >= best) continue; auto q2 = reach(s, u); bool ok = true; for (int f = 0; f < NF; f++) if (goal[f] && !q2[f]) { ok = false; break; } if (ok) best = k; }
              if (lm > best) { fail("lmcut-high", "LM-cut " + S(lm) + " exceeds the optimal relaxed plan cost " + S(best) + where); return; } if (ff < best) { fail("ff-low", "FF value " + S(ff) + " is below the optimal relaxed plan cost " + S(best) + where); return; } } }
          if (truth >= 0) { v.tags.insert("true-cost"); if (lm > truth) { fail("inadmissible", "LM-cut " + S(lm) + " exceeds the true remaining cost " + S(truth) + where); return; } if (est == estCOSTS && val[0] > truth) { fail("inadmissible", "LM-cut with task-count correction " + S(val[0]) + " exceeds the true remaining cost " + S(truth) + where); return; } }
        } }
      v.nontrivial = pos && evald >= 3; }, 8000); }
};
