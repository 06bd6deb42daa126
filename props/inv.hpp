// I19: invariants are invariants.
#include "Invariants.h"
// a state machine: every action is a method of one task, so that all of them matter
static Problem machine(Rng &r) {
  for (;;) { Problem p; int nF = r.in(3, 12); for (int i = 0; i < nF;) { int k = r.p(25) ? std::min(nF - i, r.in(2, 4)) : 1; p.vars.push_back({i, i + k - 1, "var" + S(p.vars.size())}); for (int j = 0; j < k; j++) p.facts.push_back("+f" + S(i + j) + "[]"); i += k; }
    vector<vector<int>> grp; vector<int> fr; for (auto &v : p.vars) if (v.first == v.last) fr.push_back(v.first); r.shuffle(fr); while (fr.size() >= 2 && r.p(80)) { vector<int> g; for (int k = r.in(2, 5); k-- && !fr.empty();) { g.push_back(fr.back()); fr.pop_back(); } grp.push_back(g); if (r.p(90)) p.s0.push_back(r.pick(g)); }
    for (int f : fr) if (r.p(50)) p.s0.push_back(f); for (auto &v : p.vars) if (v.last > v.first) p.s0.push_back(r.in(v.first, v.last));
    int nA = r.in(2, 14), noise = r.upto(12);
    for (int i = 0; i < nA; i++) { Action a; a.name = "a" + S(i) + "[]"; vector<int> side; // literals this action makes true, one per group
      for (auto &g : grp) if (r.p(130 / grp.size())) { int x = r.pick(g), y = r.pick(g); if (!r.p(noise)) a.pre.push_back(x); if (x != y) { if (!r.p(noise)) a.del.push_back(x); if (!r.p(noise)) a.add.push_back(y); } }
      for (auto &v : p.vars) if (v.last > v.first) { if (r.p(30)) a.pre.push_back(r.in(v.first, v.last)); if (r.p(30)) a.add.push_back(r.in(v.first, v.last)); }
      for (int f : fr) { if (r.p(15)) a.pre.push_back(f); if (r.p(20)) a.add.push_back(f); else if (r.p(20)) a.del.push_back(f); }
      if (r.p(10)) a.pre.push_back(r.upto(nF)); if (r.p(noise)) (r.p(50) ? a.add : a.del).push_back(r.upto(nF)); p.act.push_back(a); }
    p.abs = {"__top[]", "T[]"}; p.init = nA; auto M = [&](int t, vector<int> s) { Method m; m.name = "m" + S(p.met.size()); m.task = t; m.sub = s; if (s.size() == 2) m.ord.push_back({0, 1}); p.met.push_back(m); };
    M(nA, {nA + 1}); for (int i = 0; i < nA; i++) M(nA + 1, {i}); M(nA + 1, {r.upto(nA), nA + 1}); if (normalise(p)) return p; }
}
struct I19 : Prop {
  string id() override { return "I19"; }
  string rule() override { return "A case is a generated problem, with true mutex groups and clauses added, whose binary invariants are computed by the planner (from the groups alone or with the regression-free fixpoint computation of -M / -P h2) and checked in every state reachable by any action sequence. Non-trivial when at least four states are reachable and an invariant not stated in the file was found."; }
  long quickN() override { return 200000; } long thoroughN() override { return 6000000; }
  vector<string> requiredTags() override { return {"strict-group", "mutex-group", "known-invariant", "computed", "from-groups-only", "derived", "many-states", "complete-for-pairs"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 19, i); Case c; c.hasP = true; GenOpt o = baseOpt(r, th); if (r.p(50)) { o.minF = 4; o.maxF = 10; o.maxA = 10; } if (r.p(75)) { o.tokens = 90; o.minF = 4; o.maxF = r.p(50) ? 8 : 12; o.minA = 3; o.maxA = 14; o.guide = 0; } c.p = r.p(25) ? generate(r, o) : machine(r); if (r.p(70)) annotate(c.p, r); c.ext["full"] = r.p(60); return c; }
  Verdict eval(const Case &c) override {
    Verdict v0; vector<St> R; if (!all_states(c.p, R, 20000)) { v0.k = Verdict::SKIP; v0.cls = "too-many-states"; return v0; }
    const Problem &p = c.p; int n = p.nF(); if (!p.strict.empty()) v0.tags.insert("strict-group"); if (!p.mutex.empty()) v0.tags.insert("mutex-group"); if (!p.inv.empty()) v0.tags.insert("known-invariant"); if (R.size() >= 12) v0.tags.insert("many-states");
    return in_child(v0, [&](Verdict &v) {
      auto *m = new Model(true, mtrACTIONS, true, true); m->filename = "in.sas"; m->rintanenInvariants = true; std::istringstream in(to_sas(p)); m->read(&in);
      auto fail = [&](const string &k, const string &w) { if (v.k == Verdict::OK) { v.k = Verdict::FAIL; v.cls = k; v.msg = w; } };
      auto L = [&](int l) { return (l < 0 ? "not " + p.facts[-l - 1] : p.facts[l]); }; auto T = [&](int l, St s) { return l < 0 ? !(s >> (-l - 1) & 1) : bool(s >> l & 1); };
      // literal pairs that hold together in some reachable state
      vector<char> co(4 * n * n, 0); for (St s : R) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) co[(2 * a + (s >> a & 1)) * 2 * n + 2 * b + (s >> b & 1)] = 1;
      auto ix = [&](int l) { return l < 0 ? 2 * (-l - 1) : 2 * l + 1; }; auto together = [&](int a, int b) { return bool(co[ix(a) * 2 * n + ix(b)]); };
      auto check = [&](const char *stage) {
        long k = 0;
        for (int l = -n; l < n; l++) for (int o : binary_invariants[l + n]) {
          if (o < -n || o >= n) return fail("malformed", string(stage) + ": literal out of range"); k++;
          if (!binary_invariants[o + n].count(l)) fail("one-sided", string(stage) + ": " + L(l) + " or " + L(o) + " is stored only under one of its literals");
          if (together(-l - 1, -o - 1)) fail("not-invariant", string(stage) + ": \"" + L(l) + " or " + L(o) + "\" does not hold in a reachable state"); (void)T; }
        for (int a = -n; a < n; a++) for (int b = -n; b < n; b++) if (!can_state_features_co_occur(m, a, b) && together(a, b)) fail("co-occurrence", string(stage) + ": " + L(a) + " and " + L(b) + " are said never to hold together but do");
        return k ? void() : void(); };
      extract_invariants_from_parsed_model(m); check("groups");
      // everything directly stated must be known
      auto need = [&](int a, int b) { if (!binary_invariants[a + n].count(b)) fail("lost", "stated but not known: " + L(a) + " or " + L(b)); };
      for (auto *G : {&p.strict, &p.mutex}) for (auto &g : *G) for (size_t a = 0; a < g.size(); a++) for (size_t b = a + 1; b < g.size(); b++) { need(-g[a] - 1, -g[b] - 1); if (G == &p.strict && g.size() == 2) need(g[a], g[b]); }
      for (auto &g : p.inv) if (g.size() == 2) need(g[0], g[1]);
      for (auto &x : p.vars) for (int a = x.first; a <= x.last; a++) for (int b = a + 1; b <= x.last; b++) { need(-a - 1, -b - 1); if (x.last - x.first == 1) need(a, b); }
      bool comp = ex(c, "full"); if (comp) { compute_Rintanen_Invariants(m); check("computed"); v.tags.insert("computed"); } else v.tags.insert("from-groups-only");
      long total = 0, stated = 0; set<std::pair<int, int>> st; for (auto *G : {&p.strict, &p.mutex}) for (auto &g : *G) for (int a : g) for (int b : g) if (a != b) { st.insert({-a - 1, -b - 1}); if (g.size() == 2) st.insert({a, b}); } for (auto &g : p.inv) if (g.size() == 2) { st.insert({g[0], g[1]}); st.insert({g[1], g[0]}); } for (auto &x : p.vars) for (int a = x.first; a <= x.last; a++) for (int b = x.first; b <= x.last; b++) if (a != b) { st.insert({-a - 1, -b - 1}); if (x.last - x.first == 1) st.insert({a, b}); }
      bool missing = false; for (int l = -n; l < n; l++) for (int o = -n; o < n; o++) { bool has = binary_invariants[l + n].count(o); if (has) { total++; if (!st.count({l, o})) stated++; } else if (l != o && l != -o - 1 && !together(-l - 1, -o - 1)) missing = true; }
      if (stated) v.tags.insert("derived"); if (!missing && total) v.tags.insert("complete-for-pairs");
      v.nontrivial = R.size() >= 4 && stated; v.sample = S(total / 2) + " invariants, " + S(R.size()) + " states"; });
  }
};
