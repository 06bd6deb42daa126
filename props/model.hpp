// Search-node successors (P07) and model reading / analysis (P10).
#pragma once
struct P07 : Prop {
  string id() override { return "P07"; }
  string rule() override { return "A case is a random walk through the search space of a generated HTN problem; in every visited node every decomposition and every applicable action is carried out by the planner and compared with an explicit task-network reference. Non-trivial when at least one decomposition into two or more subtasks and one action were carried out in a network of three or more tasks."; }
  long quickN() override { return 60000; } long thoroughN() override { return 3000000; }
  vector<string> requiredTags() override { return {"total-order", "parallel-chains", "partial-order", "forced-effectless", "forced-only-applicable", "dead-end-flag", "goal"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 7, i); Case c; c.hasP = true; c.p = r.p(15) ? isoTrap(r, r.p(50)) : generate(r, baseOpt(r, th)); maybeInflate(r, c, 12); c.ext["_seed"] = r.upto(1 << 30); c.ext["depth"] = r.in(4, th ? 40 : 24); c.ext["noeff"] = r.p(20); c.ext["noone"] = r.p(20); c.ext["all"] = r.p(15); c.ext["walks"] = r.in(1, 3); return c; }
  typedef pair<int, int> Key;
  struct KN { map<Key, int> task; map<Key, set<Key>> succ; }; // succ = transitive closure
  static Key key(planStep *s) { return {s->parentSolutionStepInstanceNumber, s->myPositionInParent}; }
  static bool kn_of(searchNode *n, KN &k, string &err) { Net g = net_of(n); k = KN(); for (size_t i = 0; i < g.task.size(); i++) { if (k.task.count(key(g.ps[i]))) { err = "two task-network steps carry the same identity"; return false; } k.task[key(g.ps[i])] = g.task[i]; k.succ[key(g.ps[i])]; }
    for (size_t i = 0; i < g.task.size(); i++) for (size_t j = 0; j < g.task.size(); j++) if (g.c[i][j]) { if (i == j) { err = "the ordering relation of a search node is cyclic"; return false; } k.succ[key(g.ps[i])].insert(key(g.ps[j])); }
    return true; }
  static set<Key> minimal(const KN &k) { set<Key> m; for (auto &t : k.task) m.insert(t.first); for (auto &s : k.succ) for (auto &x : s.second) m.erase(x); return m; }
  static string showK(const KN &k, Model *m) { string s = "{"; for (auto &t : k.task) { s += " " + S(t.first.first) + "." + S(t.first.second) + ":" + m->taskNames[t.second]; auto it = k.succ.find(t.first); if (it != k.succ.end()) for (auto &x : it->second) s += "<" + S(x.first) + "." + S(x.second); } return s + " }"; }
  struct Snap { KN k; vector<bool> st; int md, mm, ac; vector<int> ct, cc; solutionStep *sol; vector<int> ua, up; };
  static Snap snap(searchNode *n) { Snap s; string e; kn_of(n, s.k, e); s.st = n->state; s.md = n->modificationDepth; s.mm = n->mixedModificationDepth; s.ac = n->actionCosts; s.sol = n->solution; for (int i = 0; i < n->numContainedTasks; i++) { s.ct.push_back(n->containedTasks[i]); s.cc.push_back(n->containedTaskCount[i]); } for (int i = 0; i < n->numAbstract; i++) s.ua.push_back(n->unconstraintAbstract[i]->id); for (int i = 0; i < n->numPrimitive; i++) s.up.push_back(n->unconstraintPrimitive[i]->id); return s; }
  static bool same(const Snap &a, const Snap &b) { return a.k.task == b.k.task && a.k.succ == b.k.succ && a.st == b.st && a.md == b.md && a.mm == b.mm && a.ac == b.ac && a.ct == b.ct && a.cc == b.cc && a.sol == b.sol && a.ua == b.ua && a.up == b.up; }
  // reference effect of one solution step on (network, state)
  struct Ref { KN k; vector<bool> st; long md, mm, ac; };
  Verdict eval(const Case &c) override { Verdict v0; v0.tags.insert(ordClass(c.p)); Problem p = withInfl(c);
    return in_child(v0, [&](Verdict &v) {
      Rng r(ex(c, "_seed"), 5, 5); Model *m = load(p, !ex(c, "noeff"), !ex(c, "noone"), true, ex(c, "all") ? mtrALL : mtrACTIONS); int last = ex(c, "all") ? p.nT() : p.nA();
      // tasks reachable by decomposition
      vector<set<int>> rt(p.nT()); for (int t = 0; t < p.nT(); t++) rt[t].insert(t); for (bool ch = true; ch;) { ch = false; for (auto &x : p.met) for (int s : x.sub) for (int y : set<int>(rt[s])) if (rt[x.task].insert(y).second) ch = true; }
      vector<vector<vector<char>>> clo; for (auto &x : p.met) clo.push_back(closure(x));
      auto fail = [&](const string &cl, const string &ms) { v.k = Verdict::FAIL; v.cls = cl; v.msg = ms; };
      auto check = [&](const Snap &ps, searchNode *ch, bool isDec, Key who, int method, const string &what) -> bool {
        vector<solutionStep *> st; solutionStep *s = ch->solution; while (s && s != ps.sol) { st.push_back(s); s = s->prev; if (st.size() > 10000) break; }
        if (s != ps.sol) { fail("history-lost", what + ": the successor's history does not extend its parent's"); return false; }
        std::reverse(st.begin(), st.end()); if (st.empty()) { fail("no-step", what + ": successor has no new solution step"); return false; }
        Ref f{ps.k, ps.st, ps.md, ps.mm, ps.ac};
        for (size_t i = 0; i < st.size(); i++) { solutionStep *x = st[i]; Key k{x->parentSolutionStepInstanceNumber, x->myPositionInParent};
          if (i == 0) { if (k != who || x->task != ps.k.task.at(who) || (isDec ? x->method != method : x->method >= 0)) { fail("wrong-step", what + ": recorded step differs from the chosen one"); return false; } }
          auto mins = minimal(f.k); if (!f.k.task.count(k) || !mins.count(k) || f.k.task[k] != x->task) { fail("illegal-step", what + ": step " + S(i) + " (" + m->taskNames[x->task] + ") is not an unconstrained task of the network " + showK(f.k, m)); return false; }
          if (x->method >= 0) { if (i > 0) { fail("unforced-step", what + ": a decomposition was applied without being asked for"); return false; }
            auto &M = p.met[x->method]; KN z; set<Key> after = f.k.succ[k]; z = f.k; z.task.erase(k); z.succ.erase(k); int n = M.sub.size();
            for (int a = 0; a < n; a++) { Key ka{x->mySolutionStepInstanceNumber, a}; if (z.task.count(ka)) { fail("identity-clash", what); return false; } z.task[ka] = M.sub[a]; z.succ[ka] = after; for (int b = 0; b < n; b++) if (clo[x->method][a][b]) z.succ[ka].insert(Key{x->mySolutionStepInstanceNumber, b}); }
            f.k = z; f.mm++; f.md++;
          } else { auto &A = p.act[x->task]; for (int q : A.pre) if (!f.st[q]) { fail("precondition-ignored", what + ": " + A.name + " applied although fact " + S(q) + " is false"); return false; }
            if (i > 0) { bool effless = A.add.empty() && A.del.empty(); bool noAbs = true; int nApp = 0; for (auto &q : mins) { int t = f.k.task[q]; if (t >= p.nA()) noAbs = false; else { bool ap = true; for (int g : p.act[t].pre) ap = ap && f.st[g]; nApp += ap; } }
              if (effless && !ex(c, "noeff")) v.tags.insert("forced-effectless"); else if (noAbs && nApp == 1 && !ex(c, "noone")) v.tags.insert("forced-only-applicable"); else { fail("unforced-step", what + ": " + A.name + " was applied without being asked for although it is not the only choice"); return false; } }
            for (int q : A.del) f.st[q] = false; for (int q : A.add) f.st[q] = true; f.k.task.erase(k); f.k.succ.erase(k); f.mm += A.cost; f.ac += A.cost; f.md++; } }
        KN got; string err; if (!kn_of(ch, got, err)) { fail("network-broken", what + ": " + err); return false; }
        if (got.task != f.k.task || got.succ != f.k.succ) { fail("wrong-network", what + ": expected " + showK(f.k, m) + " got " + showK(got, m)); return false; }
        if (ch->state != f.st) { fail("wrong-state", what + ": state after the step differs from the reference"); return false; }
        auto mins = minimal(f.k); set<Key> ua, up, ea, ep; for (auto &q : mins) (f.k.task[q] >= p.nA() ? ea : ep).insert(q); for (int i = 0; i < ch->numAbstract; i++) ua.insert(key(ch->unconstraintAbstract[i])); for (int i = 0; i < ch->numPrimitive; i++) up.insert(key(ch->unconstraintPrimitive[i]));
        if (ua != ea || up != ep || (int)ua.size() != ch->numAbstract || (int)up.size() != ch->numPrimitive) { fail("wrong-unconstrained", what + ": unconstrained tasks differ from the minimal elements of " + showK(f.k, m)); return false; }
        if (ch->modificationDepth != f.md || ch->mixedModificationDepth != f.mm || ch->actionCosts != f.ac) { fail("wrong-counters", what + ": depth/mixed/cost " + S(ch->modificationDepth) + "/" + S(ch->mixedModificationDepth) + "/" + S(ch->actionCosts) + " expected " + S(f.md) + "/" + S(f.mm) + "/" + S(f.ac)); return false; }
        map<int, int> cnt; for (auto &t : f.k.task) cnt[t.second]++; vector<int> et, ec, gt(ch->containedTasks, ch->containedTasks + ch->numContainedTasks), gc(ch->containedTaskCount, ch->containedTaskCount + ch->numContainedTasks); for (auto &x : cnt) et.push_back(x.first), ec.push_back(x.second);
        if (et != gt || ec != gc) { fail("wrong-task-counts", what + ": tracked task counts differ from the network " + showK(f.k, m)); return false; }
        Net g = net_of(ch); for (size_t i = 0; i < g.task.size(); i++) { set<int> e; for (size_t j = 0; j < g.task.size(); j++) if (i == j || g.c[i][j]) for (int t : rt[g.task[j]]) if (t < last) e.insert(t); if (!g.ps[i]->reachableT) { fail("reachability-missing", what); return false; } set<int> h(g.ps[i]->reachableT, g.ps[i]->reachableT + g.ps[i]->numReachableT); if (h != e || (int)h.size() != g.ps[i]->numReachableT) { fail("wrong-reachability", what + ": reachable tasks of step " + m->taskNames[g.task[i]] + " in " + show(g, m)); return false; } }
        bool dead = !f.k.task.empty() && ea.empty(); for (auto &q : ep) { bool ap = true; for (int x : p.act[f.k.task[q]].pre) ap = ap && f.st[x]; if (ap) dead = false; }
        if (!ch->goalReachable) { v.tags.insert("dead-end-flag"); if (!dead) { fail("wrong-dead-end", what + ": successor flagged as a dead end although a step is possible: " + showK(f.k, m)); return false; } }
        bool goal = f.k.task.empty(); for (int x : p.goal) goal = goal && f.st[x]; if (goal) v.tags.insert("goal"); if (m->isGoal(ch) != goal) { fail("wrong-goal-test", what); return false; }
        return true; };
      bool bigdec = false, act = false; auto *root = root_node(m); vector<searchNode *> alive{root}; vector<Snap> snaps{snap(root)};
      { set<int> e; for (int t : rt[p.init]) if (t < last) e.insert(t); auto *s = root->unconstraintAbstract[0]; set<int> h(s->reachableT, s->reachableT + s->numReachableT); if (h != e || root->modificationDepth || root->mixedModificationDepth || root->actionCosts || root->numContainedTasks != 1 || root->containedTasks[0] != p.init || root->containedTaskCount[0] != 1 || root->numAbstract != 1 || root->numPrimitive) { fail("wrong-initial-node", "initial search node"); return; } vector<bool> s0(p.nF()); for (int f : p.s0) s0[f] = true; if (root->state != s0) { fail("wrong-initial-node", "initial state"); return; } }
      for (int w = ex(c, "walks"); w-- > 0;) { searchNode *n = root;
        for (int d = ex(c, "depth"); d-- > 0;) { Snap ps = snap(n); if (ps.k.task.size() > 30) break; vector<searchNode *> ch;
          for (int i = 0; i < n->numAbstract; i++) { int t = n->unconstraintAbstract[i]->task; Key k = key(n->unconstraintAbstract[i]); for (int j = 0; j < m->numMethodsForTask[t]; j++) { if (ch.size() > 12 && r.p(80)) continue; int me = m->taskToMethods[t][j]; auto *x = m->decompose(n, i, me); if (!check(ps, x, true, k, me, "decomposing " + m->taskNames[t] + " with " + m->methodNames[me])) return; if (p.met[me].sub.size() > 1 && ps.k.task.size() > 2) bigdec = true; ch.push_back(x); } }
          for (int i = 0; i < n->numPrimitive; i++) { int t = n->unconstraintPrimitive[i]->task; bool ap = true; for (int f : p.act[t].pre) ap = ap && n->state[f]; if (m->isApplicable(n, t) != ap) { fail("wrong-applicability", "action " + m->taskNames[t]); return; } if (!ap) continue; Key k = key(n->unconstraintPrimitive[i]); auto *x = m->apply(n, i); if (!check(ps, x, false, k, -1, "applying " + m->taskNames[t])) return; if (ps.k.task.size() > 2) act = true; ch.push_back(x); }
          if (!same(ps, snap(n))) { fail("parent-changed", "expanding a node changed the node itself"); return; }
          vector<searchNode *> cand; for (auto *x : ch) if (x->goalReachable && (x->numAbstract || x->numPrimitive)) cand.push_back(x);
          searchNode *nx = cand.empty() ? nullptr : r.pick(cand);
          for (auto *x : ch) if (x != nx) { if (r.p(50)) delete x; else { alive.push_back(x); snaps.push_back(snap(x)); } }
          if (n != root && r.p(60)) { for (size_t i = 0; i < alive.size(); i++) if (alive[i] == n) { alive.erase(alive.begin() + i); snaps.erase(snaps.begin() + i); break; } delete n; }
          if (!nx) break; n = nx; alive.push_back(n); snaps.push_back(snap(n)); }
        for (size_t i = 0; i < alive.size(); i++) if (!same(snaps[i], snap(alive[i]))) { fail("node-changed", "a stored search node changed after other nodes were expanded or deleted"); return; } }
      v.nontrivial = bigdec && act; }); }
};

struct P10 : Prop {
  string id() override { return "P10"; }
  string rule() override { return "A case is a generated problem file (any mix of order classes, recursion, SAS+ variables, mutexes, redundant orderings, repeated preconditions) that is read by the planner; every derived table is compared with an independent computation. Non-trivial when the file has a method with three or more ordered subtasks and at least two abstract tasks."; }
  long quickN() override { return 100000; } long thoroughN() override { return 4000000; }
  vector<string> requiredTags() override { return {"total-order", "parallel-chains", "partial-order", "cyclic", "acyclic", "redundant-orderings", "repeated-precondition", "zero-cost-cycle"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 10, i); Case c; c.hasP = true; c.p = r.p(10) ? isoTrap(r, false) : generate(r, baseOpt(r, th)); auto &p = c.p;
    if (r.p(30)) { // random edges in the task graph: nested cycles, tasks that can never be finished, recursion through the initial task
      bool top = r.p(40); for (int k = r.upto(3); k--;) p.abs.push_back("X" + std::to_string(k) + "[]"); int nB = p.abs.size();
      for (int k = r.in(1, 2 * nB); k--;) { Method m; m.name = "x" + std::to_string(k); m.task = p.nA() + r.upto(nB); for (int i = r.in(1, 3); i--;) { int t = p.nA() + r.upto(nB); if (t == p.init && !top) t = r.upto(p.nT()); if (t == p.init && !top) continue; m.sub.push_back(t); } if (m.sub.empty()) continue; for (size_t i = 0; i + 1 < m.sub.size(); i++) if (r.p(80)) m.ord.push_back({(int)i, (int)i + 1}); p.met.push_back(m); }
      normalise(p); }
    if (r.p(50)) for (auto *L : {&p.strict, &p.mutex}) for (int k = r.upto(3); k--;) { vector<int> g; for (int f = 0; f < p.nF(); f++) if (r.p(40)) g.push_back(f); if (!g.empty()) L->push_back(g); }
    if (r.p(40)) for (int k = r.in(1, 3); k--;) { vector<int> g; for (int f = 0; f < p.nF(); f++) if (r.p(40)) g.push_back(r.p(50) ? f : -f - 1); if (!g.empty()) p.inv.push_back(g); }
    c.ext["redundant"] = r.p(50) ? r.in(1, 100000) : 0; c.ext["repeat"] = r.p(25) ? r.in(1, 100000) : 0; c.ext["vec"] = r.p(50); c.ext["all"] = r.p(30); maybeInflate(r, c, 15); return c; }
  Verdict eval(const Case &c) override { Verdict v0; v0.tags.insert(ordClass(c.p)); Problem p = withInfl(c); if (ex(c, "redundant")) { Rng r(ex(c, "redundant"), 1, 2); p = redundantOrders(p, r); v0.tags.insert("redundant-orderings"); }
    Problem file = p; if (ex(c, "repeat")) { Rng r(ex(c, "repeat"), 1, 3); for (auto &a : file.act) if (!a.pre.empty() && r.p(50)) { a.pre.insert(a.pre.begin() + r.upto(a.pre.size() + 1), r.pick(a.pre)); v0.tags.insert("repeated-precondition"); } }
    return in_child(v0, [&](Verdict &v) {
      auto *m = new Model(true, ex(c, "all") ? mtrALL : mtrACTIONS, true, true); m->filename = "in.sas"; m->rintanenInvariants = ex(c, "vec"); std::istringstream in(to_sas(file)); m->read(&in);
      string bad; auto chk = [&](bool ok, const string &w) { if (!ok && bad.empty()) bad = w; };
      auto sv = [](const int *a, int n) { vector<int> x(a, a + n); return x; }; auto ss = [](const int *a, int n) { return set<int>(a, a + n); }; auto Z = [](vector<int> x) { std::sort(x.begin(), x.end()); return x; };
      int nF = p.nF(), nA = p.nA(), nT = p.nT(), nM = p.met.size();
      chk(m->isHtnModel && m->numStateBits == nF && m->numActions == nA && m->numTasks == nT && m->numMethods == nM && m->numVars == (int)p.vars.size() && m->initialTask == p.init, "sizes");
      if (bad.empty()) {
        for (int f = 0; f < nF; f++) chk(m->factStrs[f] == p.facts[f], "fact names");
        for (int x = 0; x < (int)p.vars.size(); x++) { chk(m->firstIndex[x] == p.vars[x].first && m->lastIndex[x] == p.vars[x].last && m->varNames[x] == p.vars[x].name, "variables"); for (int f = p.vars[x].first; f <= p.vars[x].last; f++) chk(m->varOfStateBit[f] == x, "variable of a fact"); }
        auto grp = [&](int n, int **e, int *s, const vector<vector<int>> &w, const string &nm) { chk(n == (int)w.size(), nm); for (int i = 0; i < n && bad.empty(); i++) { chk(sv(e[i], s[i]) == w[i], nm); } };
        grp(m->numStrictMutexes, m->strictMutexes, m->strictMutexesSize, p.strict, "strict mutexes"); grp(m->numMutexes, m->mutexes, m->mutexesSize, p.mutex, "mutexes"); grp(m->numInvariants, m->invariants, m->invariantsSize, p.inv, "invariants");
        vector<set<int>> pa(nF), aa(nF), da(nF); set<int> np;
        for (int a = 0; a < nA; a++) { auto &A = p.act[a]; chk(m->actionCosts[a] == A.cost, "action costs"); chk(Z(sv(m->precLists[a], m->numPrecs[a])) == Z(A.pre), "preconditions"); chk(Z(sv(m->addLists[a], m->numAdds[a])) == Z(A.add), "add effects"); auto md = sv(m->delLists[a], m->numDels[a]); { set<int> fi(A.del.begin(), A.del.end()), mm(md.begin(), md.end()), ef = fi; for (int f : A.add) ef.erase(f); bool ok = md.size() == mm.size() || fi.size() < A.del.size(); for (int f : mm) ok = ok && fi.count(f); for (int f : ef) ok = ok && mm.count(f); chk(ok, "delete effects"); } // a deletion overruled by an addition may be dropped
          for (int f : A.pre) pa[f].insert(a); for (int f : A.add) aa[f].insert(a); for (int f : md) da[f].insert(a); if (A.pre.empty()) np.insert(a); chk(m->numConditionalAdds[a] == 0 && m->numConditionalDels[a] == 0, "conditional effects"); }
        auto inv = [&](int *n, int **x, const vector<set<int>> &w, const string &nm) { for (int f = 0; f < nF; f++) chk((int)w[f].size() == n[f] && ss(x[f], n[f]) == w[f], nm); };
        inv(m->precToActionSize, m->precToAction, pa, "fact -> actions needing it"); inv(m->addToActionSize, m->addToAction, aa, "fact -> actions adding it"); inv(m->delToActionSize, m->delToAction, da, "fact -> actions deleting it");
        chk(m->numPrecLessActions == (int)np.size() && (np.empty() || ss(m->precLessActions, np.size()) == np), "actions without precondition");
        chk(Z(sv(m->s0List, m->s0Size)) == Z(p.s0), "initial state"); chk(Z(sv(m->gList, m->gSize)) == Z(p.goal), "goal");
        for (int t = 0; t < nT; t++) chk(m->taskNames[t] == p.tname(t) && m->isPrimitive[t] == (t < nA), "task names");
        if (ex(c, "vec")) { for (int a = 0; a < nA; a++) for (int f = 0; f < nF; f++) chk(m->addVectors[a][f] == aa[f].count(a) && m->delVectors[a][f] == da[f].count(a), "effect vectors"); set<int> s(p.s0.begin(), p.s0.end()); for (int f = 0; f < nF; f++) chk(m->s0Vector[f] == s.count(f), "initial-state vector"); }
        // methods
        vector<set<int>> t2m(nT), s2m(nT); bool big = false, allTO = true, par = true, initSub = false; vector<vector<vector<char>>> clo;
        for (int i = 0; i < nM; i++) for (int s : p.met[i].sub) if (s == p.init) initSub = true;
        for (int i = 0; i < nM && bad.empty(); i++) { auto &M = p.met[i]; int n = M.sub.size(); auto cl = closure(M); clo.push_back(cl); t2m[M.task].insert(i); for (int s : M.sub) s2m[s].insert(i);
          chk(m->methodNames[i] == M.name && m->decomposedTask[i] == M.task && sv(m->subTasks[i], m->numSubTasks[i]) == M.sub, "method definitions"); if (!bad.empty()) break;
          Method g; g.sub = M.sub; set<pair<int, int>> es; for (int o = 0; o + 1 < m->numOrderings[i]; o += 2) { g.ord.push_back({m->ordering[i][o], m->ordering[i][o + 1]}); es.insert(g.ord.back()); } chk(m->numOrderings[i] % 2 == 0 && es.size() == g.ord.size(), "orderings listed once"); chk(closure(g) == cl, "the read orderings generate the same partial order"); if (!bad.empty()) break;
          for (auto &e : g.ord) for (int k = 0; k < n; k++) chk(!(cl[e.first][k] && cl[k][e.second]), "no ordering implied by others is kept");
          set<int> fi, la; int fp = 0, fa = 0; for (int a = 0; a < n; a++) { bool f = true, l = true; int sc = 0; for (int b = 0; b < n; b++) { if (cl[b][a]) f = false; if (cl[a][b]) l = false; sc += es.count({a, b}); } if (f) { fi.insert(a); (M.sub[a] < nA ? fp : fa)++; } if (l) la.insert(a); chk(m->methodSubtaskSuccNum[i][a] == sc, "number of direct successors of a subtask"); }
          chk(m->numFirstTasks[i] == (int)fi.size() && ss(m->methodsFirstTasks[i], fi.size()) == fi, "first subtasks"); chk(m->numLastTasks[i] == (int)la.size() && ss(m->methodsLastTasks[i], la.size()) == la, "last subtasks"); chk(m->numFirstPrimSubTasks[i] == fp && m->numFirstAbstractSubTasks[i] == fa, "number of primitive/abstract first subtasks");
          map<int, int> ct; for (int s : M.sub) ct[s]++; vector<int> d, k; for (auto &x : ct) d.push_back(x.first), k.push_back(x.second); chk(m->numDistinctSTs[i] == (int)d.size() && sv(m->sortedDistinctSubtasks[i], d.size()) == d && sv(m->sortedDistinctSubtaskCount[i], d.size()) == k, "distinct subtasks with counts");
          bool to = method_total(M); if (n >= 3 && !M.ord.empty()) big = true; if (!to) { allTO = false; if (M.task != p.init || !method_chains(M)) par = false; } }
        if (!allTO && initSub) par = false;
        chk(m->isTotallyOrdered == allTO, "totally-ordered flag"); chk(m->isParallelSequences == (allTO || par), "parallel-sequences flag");
        for (int t = 0; t < nT && bad.empty(); t++) { chk(m->numMethodsForTask[t] == (int)t2m[t].size() && (t2m[t].empty() || ss(m->taskToMethods[t], t2m[t].size()) == t2m[t]), "task -> methods"); chk(m->stToMethodNum[t] == (int)s2m[t].size() && ss(m->stToMethod[t], s2m[t].size()) == s2m[t], "subtask -> methods"); }
        if (bad.empty()) { // task graph
          m->calcSCCs(); m->calcSCCGraph(); m->analyseSCCcyclicity(); vector<vector<char>> R(nT, vector<char>(nT, 0)); for (auto &M : p.met) for (int s : M.sub) R[M.task][s] = 1; auto E = R; for (int k = 0; k < nT; k++) for (int i = 0; i < nT; i++) if (R[i][k]) for (int j = 0; j < nT; j++) if (R[k][j]) R[i][j] = 1;
          for (int a = 0; a < nT; a++) for (int b = 0; b < nT; b++) chk((m->taskToSCC[a] == m->taskToSCC[b]) == (a == b || (R[a][b] && R[b][a])), "strongly connected components");
          int nS = m->numSCCs; set<int> used; for (int a = 0; a < nT; a++) { used.insert(m->taskToSCC[a]); chk(m->taskToSCC[a] >= 0 && m->taskToSCC[a] < nS, "component numbers"); } chk((int)used.size() == nS, "number of components");
          if (bad.empty()) { set<int> cyc; int selfl = 0, mx = 0; vector<set<int>> sg(nS), sp(nS), mem(nS); for (int a = 0; a < nT; a++) mem[m->taskToSCC[a]].insert(a); for (int s = 0; s < nS; s++) { mx = std::max(mx, (int)mem[s].size()); chk(m->sccSize[s] == (int)mem[s].size() && ss(m->sccToTasks[s], mem[s].size()) == mem[s], "tasks of a component"); int a = *mem[s].begin(); if (mem[s].size() > 1) cyc.insert(s); else if (E[a][a]) cyc.insert(s), selfl++; }
            for (int a = 0; a < nT; a++) for (int b = 0; b < nT; b++) if (E[a][b] && m->taskToSCC[a] != m->taskToSCC[b]) { sg[m->taskToSCC[a]].insert(m->taskToSCC[b]); sp[m->taskToSCC[b]].insert(m->taskToSCC[a]); }
            chk(m->numCyclicSccs == (int)cyc.size() && ss(m->sccsCyclic, cyc.size()) == cyc && m->numSccOneWithSelfLoops == selfl && m->sccMaxSize == mx, "cyclic components"); v.tags.insert(cyc.empty() ? "acyclic" : "cyclic");
            vector<int> pos(nS, -1); for (int i = 0; i < nS; i++) { int s = m->sccTopOrder[i]; chk(s >= 0 && s < nS && pos[s] < 0, "topological order is a permutation"); if (bad.empty()) pos[s] = i; }
            for (int s = 0; s < nS && bad.empty(); s++) { chk(m->sccGnumSucc[s] == (int)sg[s].size() && ss(m->sccG[s], sg[s].size()) == sg[s], "component graph successors"); chk(m->sccGnumPred[s] == (int)sp[s].size() && ss(m->sccGinverse[s], sp[s].size()) == sp[s], "component graph predecessors"); for (int q : sg[s]) chk(pos[q] < pos[s], "topological order"); bool ac = true; for (int a : mem[s]) for (int b = 0; b < nT; b++) if ((a == b || R[a][b]) && R[b][b]) ac = false; chk(m->sccIsAcyclic[s] == ac, "component can only reach acyclic components"); } }
          int last = ex(c, "all") ? nT : nA; for (int a = 0; a < nT && bad.empty(); a++) { set<int> e; for (int b = 0; b < last; b++) if (a == b || R[a][b]) e.insert(b); chk(m->numReachable[a] == (int)e.size() && ss(m->reachable[a], e.size()) == e, "tasks reachable by decomposition"); }
        }
        if (bad.empty()) { // minimal implied distance / cost
          m->calcMinimalImpliedX(); const long INF = 1e9; vector<long> d(nT, INF), k(nT, INF), l(nT, 0); for (int a = 0; a < nA; a++) d[a] = 1, k[a] = l[a] = p.act[a].cost;
          for (bool ch = true; ch;) { ch = false; for (auto &M : p.met) { long sd = 1, sc = 0; for (int s : M.sub) sd += d[s], sc += k[s]; if (sd < d[M.task]) d[M.task] = sd, ch = true; if (sc < k[M.task]) k[M.task] = sc, ch = true; } }
          for (bool ch = true; ch;) { ch = false; for (int t = nA; t < nT; t++) { long b = INF; for (int i : t2m[t]) { long s = 0; for (int x : p.met[i].sub) s += l[x]; b = std::min(b, s); } if (b != l[t]) { l[t] = b; ch = true; } } }
          for (int t = 0; t < nT; t++) { chk(m->minImpliedDistance[t] == d[t], "smallest number of steps implied by task " + p.tname(t) + ": " + S(m->minImpliedDistance[t]) + " expected " + S(d[t])); chk(m->minEstimatedCosts[t] == k[t], "least cost implied by task " + p.tname(t) + ": " + S(m->minEstimatedCosts[t]) + " expected " + S(k[t])); if (l[t] < k[t]) v.tags.insert("zero-cost-cycle"); } }
        if (bad.empty()) { if (c.ext.count("_seed") ? ex(c, "_seed") % 2 : (nM + nF) % 2) m->computeTransitiveClosureOfMethodOrderings(); else if (nM % 2) { m->computeTransitiveClosureOfMethodOrderings(); m->computeTransitiveClosureOfMethodOrderings(); }
          m->buildOrderingDatastructures(); for (int i = 0; i < nM && bad.empty(); i++) { auto &M = p.met[i]; int n = M.sub.size(); Method g; g.sub = M.sub; set<pair<int, int>> es; for (int o = 0; o + 1 < m->numOrderings[i]; o += 2) { g.ord.push_back({m->ordering[i][o], m->ordering[i][o + 1]}); es.insert(g.ord.back()); } chk(closure(g) == clo[i], "transitive closure of the method orderings");
            if ((nM + nF) % 2 || nM % 2) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) chk(es.count({a, b}) == (clo[i][a][b] ? 1u : 0u), "closed method orderings");
            bool to = method_total(M); chk(m->methodIsTotallyOrdered[i] == to, "totally-ordered flag of a method"); vector<int> pos(n, -1); for (int k = 0; k < n; k++) { int q = m->methodTotalOrder[i][k]; if (q < 0 || q >= n || pos[q] >= 0) { chk(false, "linearisation of a method is a permutation"); break; } pos[q] = k; } if (!bad.empty()) break; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { if (clo[i][a][b]) chk(pos[a] < pos[b], "linearisation of a method respects its orderings"); chk(m->methodSubTasksSuccessors[i][a].count(b) == es.count({a, b}) && m->methodSubTasksPredecessors[i][b].count(a) == es.count({a, b}), "predecessors/successors of subtasks"); } } }
        v.nontrivial = big && p.abs.size() >= 2; }
      if (!bad.empty()) { v.k = Verdict::FAIL; v.cls = "model-table"; v.msg = "differs from the problem file: " + bad; } }); }
};
