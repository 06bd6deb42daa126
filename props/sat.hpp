// Properties of the SAT planner (P15 validity of its output, P16 exact depths, P17 independence of options and presentation).
#include <cmath>
static string pickSat(Rng &r, bool opt = true) { string s = "-s"; if (r.p(40)) s += " -B"; if (r.p(40)) s += " -M"; if (r.p(70)) s += string(" -P ") + (r.p(33) ? "none" : r.p(50) ? "ff" : "h2"); if (r.p(25)) s += " -m"; (void)opt; return s; }
struct SatOut { int sat = -1; vector<int> unsat; bool limit = false; };
// depths in the order in which the planner reports them; sat = first satisfiable one
static SatOut sat_out(const string &o) { SatOut r; std::istringstream in(o); string l; int cur = -1; while (std::getline(in, l)) { size_t p = l.find("Generating formula for depth "); if (p != string::npos) { cur = atoi(l.c_str() + p + 29); continue; } bool un = l.find("UNSAT") != string::npos && (l.find("Solver state") != string::npos || l.find("pruned") != string::npos); bool sa = !un && l.find("Solver state") != string::npos && l.find("SAT") != string::npos; if (un && r.sat < 0) r.unsat.push_back(cur); if (sa && r.sat < 0) r.sat = cur; if (l.find("VERIF-SAT-LIMIT") != string::npos) r.limit = true; } return r; }
static Problem satProblem(Rng &r, bool th) { GenOpt o = baseOpt(r, th, r.p(45) ? 0 : r.p(30) ? 1 : 2); o.maxAbs = r.in(2, 5); o.maxMeth = r.in(1, 3); o.guide = r.p(60) ? 90 : 30; if (r.p(35)) { o.tokens = 80; o.minF = 3; o.maxF = 9; } return r.p(12) ? isoTrap(r) : generate(r, o); }
static void addPrecTasks(Problem &p, Rng &r) { // effect-less actions, as compiled method preconditions are
  int n = r.in(1, 3), old = p.nA(); for (auto &m : p.met) { if (m.task >= old) m.task += n; for (int &s : m.sub) if (s >= old) s += n; } p.init += n;
  for (int k = 0; k < n; k++) { Action a; a.name = "__method_precondition_m" + std::to_string(k) + "[]"; a.cost = 0; for (int f = 0; f < p.nF(); f++) if (r.p(15)) a.pre.push_back(f); p.act.push_back(a); }
  for (auto &m : p.met) if (m.sub.size() < 5 && r.p(50)) { int k = m.sub.size(); bool tot = method_total(m); m.sub.push_back(old + r.upto(n)); bool first = tot || r.p(80); for (int j = 0; j < k; j++) if (first || r.p(40)) m.ord.push_back({k, j}); }
  normalise(p);
}

// a task with several hundred one-action methods, so that "at most one" constraints reach their binary encoding
static Problem satWide(Rng &r) {
  GenOpt o; o.maxAbs = r.in(2, 3); o.maxMeth = 2; o.maxSub = 2; o.ord = r.p(45) ? O_TO : O_PO; o.guide = 90; Problem p = generate(r, o);
  int n = r.p(50) ? r.in(256, 300) : r.in(200, 600), old = p.nA(); for (auto &m : p.met) { if (m.task >= old) m.task += n; for (int &s : m.sub) if (s >= old) s += n; } p.init += n;
  int dead = p.nF(); for (int k = 0; k < 3; k++) { p.facts.push_back(k ? "+w" + std::to_string(k) + "[]" : "+never[]"); p.vars.push_back({dead + k, dead + k, "varw" + std::to_string(k)}); } for (int k = 0; k < old; k++) for (int j = 1; j < 3; j++) { if (r.p(20)) p.act[k].add.push_back(dead + j); else if (r.p(20)) p.act[k].pre.push_back(dead + j); } int t = old + n + r.upto(p.abs.size()); int useful = r.in(0, 3);
  for (int k = 0; k < n; k++) { Action a; a.name = "w" + std::to_string(k) + "[]"; a.cost = r.upto(3); if (!r.p(100 * useful / n + 1)) a.pre.push_back(dead); else if (dead && r.p(50)) a.pre.push_back(r.upto(dead)); (r.p(60) ? a.add : a.del).push_back(dead + r.in(1, 2)); p.act.push_back(a); Method m; m.name = "mw" + std::to_string(k); m.task = t; m.sub = {old + k}; p.met.push_back(m); }
  // two of the actions whose numbers differ in few bits together make the goal true: only a model that takes both at once needs a single occurrence of the task
  if (n > 256 && r.p(60)) { int d = r.p(70) ? 256 : 1 << r.upto(8), a = r.upto(n - d), b = a + d; for (int k : {a, b}) { auto &x = p.act[old + k]; x.pre.clear(); x.del.clear(); x.add = {k == a ? dead + 1 : dead + 2}; } for (size_t k = 0; k < p.act.size(); k++) if ((int)k != old + a && (int)k != old + b) { auto &x = p.act[k].add; x.erase(std::remove_if(x.begin(), x.end(), [&](int f) { return f > dead; }), x.end()); if (x.empty() && p.act[k].del.empty()) p.act[k].del.push_back(dead + 1); } for (int f : {dead + 1, dead + 2}) { p.goal.push_back(f); p.s0.erase(std::remove(p.s0.begin(), p.s0.end(), f), p.s0.end()); } }
  normalise(p); return p;
}

struct P15 : Prop {
  string id() override { return "P15"; }
  string rule() override { return "A case is a generated HTN problem and a SAT-planner configuration (block compression, mutexes, pruning, separate leaves, optimisation, order output); non-trivial when at least one plan with two or more actions was printed, all of which were re-verified."; }
  long quickN() override { return 6000; } long thoroughN() override { return 500000; }
  vector<string> requiredTags() override { return {"plan:total-order", "plan:parallel-chains", "plan:partial-order", "improved-plan", "order-output", "recursive"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 15, i); Case c; c.hasP = true; c.p = r.p(3) ? satWide(r) : r.p(25) ? bigProblem(r, th) : satProblem(r, th); if (r.p(35)) addPrecTasks(c.p, r); if (r.p(50)) annotate(c.p, r); if (r.p(15)) maybeInflate(r, c, 100); string s = pickSat(r); if (r.p(35)) s += " -o"; if (r.p(40)) s += " --orderOutput"; c.cfg.push_back(s); c.ext["_limit"] = r.in(6, 9); c.ext["_sseed"] = r.p(70) ? r.in(1, 1 << 30) : 0; return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); if (c.p.nA() >= 256) v.tags.insert("wide"); if (!c.p.strict.empty()) v.tags.insert("strict-group"); if (!c.p.mutex.empty()) v.tags.insert("mutex-group"); if (!c.p.inv.empty()) v.tags.insert("known-invariant"); Problem e = withInfl(c); const string &cfg = c.cfg[0]; string oc = ordClass(c.p);
    Run r = run_engine(e, cfg, 600, c.ext.at("_limit"), c.ext.at("_sseed")); if (r.cpu) v.tags.insert("cpu-limit"); else if (r.sig || r.code) return bad(v, "crash", cfg + ": " + crashmsg(r));
    size_t pos = 0; map<string, int> cost; for (auto &a : e.act) cost[a.name] = a.cost; int n = 0; long lastApparent = LONG_MAX; bool order = cfg.find("--orderOutput") != string::npos;
    while (r.out.find("==>\n", pos) != string::npos && r.out.find("Total cost of solution: ", pos) != string::npos) {
      Plan pl; string err; int cst = 0; size_t at = r.out.find("==>\n", pos); size_t b = pos; if (!parse_plan(r.out, pl, err, &b) || !verify_plan(e, pl, err, &cst)) return bad(v, "invalid-plan", cfg + ": " + err + "\n" + planText(r.out.substr(at)));
      size_t t = r.out.find("Total cost of solution: ", b); if (t == string::npos) break; long app = atol(r.out.c_str() + t + 24); size_t q = r.out.find("true cost: ", t); long tru = atol(r.out.c_str() + q + 11);
      if (tru != cst) return bad(v, "reported-cost", cfg + ": reported true cost " + std::to_string(tru) + " but the plan costs " + std::to_string(cst) + "\n" + planText(r.out.substr(at)));
      long ea = 0; for (auto &x : pl.prim) { int k = cost[x.second]; if (k) ea += long(1 + log((double)k)); } if (ea != app) return bad(v, "scaled-cost", cfg + ": reported scaled cost " + std::to_string(app) + " but it is " + std::to_string(ea));
      if (n >= 2 && lastApparent > 0 && app >= lastApparent) return bad(v, "not-improving", cfg + ": plan number " + std::to_string(n + 1) + " has scaled cost " + std::to_string(app) + ", the one before " + std::to_string(lastApparent)); if (n >= 2) v.tags.insert("improved-plan"); lastApparent = app; n++;
      if (pl.prim.size() >= 2) { v.nontrivial = true; v.sample = cfg; } v.tags.insert(string("plan:") + oc);
      if (order) { // lines "id k succ..." after the plan
        size_t s = r.out.find("<==", at); s = r.out.find('\n', s) + 1; std::istringstream in(r.out.substr(s, t - s)); string l; map<int, set<int>> suc; map<int, int> posn; for (size_t i = 0; i < pl.prim.size(); i++) posn[pl.prim[i].first] = i;
        while (std::getline(in, l)) { std::istringstream z(l); int id, k, x; if (!(z >> id >> k)) return bad(v, "order-output", "malformed line " + l); set<int> ss; while (z >> x) ss.insert(x); if ((int)ss.size() != k) return bad(v, "order-output", "wrong successor count in: " + l); if (!posn.count(id) || suc.count(id)) return bad(v, "order-output", "unknown or repeated id: " + l); for (int y : ss) { if (!posn.count(y)) return bad(v, "order-output", "successor is not a plan step: " + l); if (posn[y] <= posn[id]) return bad(v, "order-output", "successor occurs before the step: " + l); } suc[id] = ss; }
        if (suc.size() != pl.prim.size()) return bad(v, "order-output", "one line per plan step expected, got " + std::to_string(suc.size()) + " for " + std::to_string(pl.prim.size()));
        // every ordering the decomposition induces must be printed
        map<int, const Plan::Dec *> dec; for (auto &d : pl.dec) dec[d.id] = &d; map<string, int> mid; for (size_t i = 0; i < e.met.size(); i++) mid[e.met[i].name] = i;
        std::function<set<int>(int)> leaves = [&](int id) { if (!dec.count(id)) return set<int>{id}; set<int> s; for (int k : dec[id]->kids) { auto y = leaves(k); s.insert(y.begin(), y.end()); } return s; };
        for (auto &d : pl.dec) { auto &m = e.met[mid[d.method]]; auto cl = closure(m); // match children to subtasks by task; only unambiguous methods are used
          map<string, int> cnt; for (int sidx : m.sub) cnt[e.tname(sidx)]++; map<int, string> nm; for (auto &x : pl.prim) nm[x.first] = x.second; for (auto &x : pl.dec) nm[x.id] = x.task;
          for (size_t a = 0; a < m.sub.size(); a++) for (size_t bq = 0; bq < m.sub.size(); bq++) if (cl[a][bq] && cnt[e.tname(m.sub[a])] == 1 && cnt[e.tname(m.sub[bq])] == 1) { int ka = -1, kb = -1; for (int k : d.kids) { if (nm[k] == e.tname(m.sub[a])) ka = k; if (nm[k] == e.tname(m.sub[bq])) kb = k; } if (ka < 0 || kb < 0) continue; for (int x : leaves(ka)) for (int y : leaves(kb)) if (!suc[x].count(y)) return bad(v, "order-output", cfg + ": step " + std::to_string(x) + " must precede " + std::to_string(y) + " by method " + d.method + " but that is not printed\n" + r.out.substr(at, t - at)); } }
        v.tags.insert("order-output"); }
      pos = t; if (cfg.find("-o") == string::npos && n > 1) return bad(v, "second-plan", cfg); }
    return v;
  }
};

struct P16 : Prop {
  // with -o: every further formula "depth d and cost x" is satisfiable exactly when a solution of height <= d and scaled cost <= x exists
  bool optimisation(const Case &c, const string &out, const SatOut &o, Verdict &v) {
    const string &cfg = c.cfg[0]; Problem sc = c.p; for (auto &a : sc.act) if (a.cost) a.cost = int(1 + log((double)a.cost)); map<int, int> memo; auto opt = [&](int d) { auto f = memo.find(d); return f != memo.end() ? f->second : memo[d] = ref_min_cost_at(sc, d); };
    std::istringstream in(out); string l; int d = -1; long x = 0; bool coarse = true, open = false; long app = -1; int lastD = o.sat;
    while (std::getline(in, l)) {
      size_t p = l.find("Generating formula for depth "), q = l.find(" and cost "); if (p != string::npos && q != string::npos) { d = atoi(l.c_str() + p + 29); x = atol(l.c_str() + q + 10); open = true; if (d != lastD && d != lastD + 1) { bad(v, "optimise-depth-sequence", cfg); return false; } lastD = d; continue; }
      if ((p = l.find("Total cost of solution: ")) != string::npos) { app = atol(l.c_str() + p + 24); if (d >= 0) coarse = false; continue; }
      if (!open || (l.find("Solver state") == string::npos && l.find("is pruned") == string::npos)) continue;
      bool un = l.find("UNSAT") != string::npos; open = false; int b = opt(d); if (b == -2) { v.tags.insert("optimise-undecided"); continue; }
      bool want = b >= 0 && (coarse || b <= x); string what = cfg + ": depth " + std::to_string(d) + (coarse ? " (first, unbounded round)" : " and scaled cost " + std::to_string(x)) + ", least scaled cost at this height is " + std::to_string(b);
      if (un && want) { bad(v, "optimise-unsat-but-solvable", what); return false; } if (!un && !want) { bad(v, "optimise-sat-but-unsolvable", what); return false; }
      if (!coarse) v.tags.insert(un ? "optimise:unsat" : "optimise:sat");
    }
    if (out.find("VERIF-SAT-LIMIT") == string::npos && app != 0) { bad(v, "optimise-ended-early", cfg + ": stopped although the last plan has scaled cost " + std::to_string(app)); return false; }
    return true;
  }
  string id() override { return "P16"; }
  string rule() override { return "A case is a small generated HTN problem whose least decomposition-tree height with a solution an exact reference computes, and one SAT configuration; non-trivial when the planner answered for at least one unsatisfiable and one satisfiable depth, or for three unsatisfiable depths."; }
  long quickN() override { return 8000; } long thoroughN() override { return 800000; }
  vector<string> requiredTags() override { return {"sat:total-order", "sat:parallel-chains", "sat:partial-order", "unsat:total-order", "unsat:partial-order", "depth>=3", "recursive", "optimise:sat", "optimise:unsat"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 16, i); Case c; c.hasP = true; c.p = r.p(3) ? satWide(r) : satProblem(r, th); if (r.p(35)) addPrecTasks(c.p, r); if (r.p(50)) annotate(c.p, r); if (r.p(10)) maybeInflate(r, c, 100); c.cfg.push_back(pickSat(r)); if (r.p(30)) c.cfg[0] += " -o"; c.ext["_limit"] = r.in(4, 6); c.ext["_sseed"] = r.p(50) ? r.in(1, 1 << 30) : 0; return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); if (c.p.nA() >= 256) v.tags.insert("wide"); if (!c.p.strict.empty()) v.tags.insert("strict-group"); if (!c.p.mutex.empty()) v.tags.insert("mutex-group"); if (!c.p.inv.empty()) v.tags.insert("known-invariant"); int lim = c.ext.at("_limit"); int h = ref_min_height(c.p, lim); if (h == -2) { v.k = Verdict::SKIP; v.cls = "reference-undecided"; return v; } string oc = ordClass(c.p); const string &cfg = c.cfg[0];
    Problem e = withInfl(c); Run r = run_engine(e, cfg, 600, lim, c.ext.at("_sseed")); if (r.cpu) { v.tags.insert("cpu-limit"); return v; } if (r.sig || r.code) return bad(v, "crash", cfg + ": " + crashmsg(r));
    SatOut o = sat_out(r.out); for (size_t i = 0; i < o.unsat.size(); i++) if (o.unsat[i] != (int)i + 1) return bad(v, "depth-sequence", cfg);
    for (int d : o.unsat) if (h >= 0 && d >= h) return bad(v, "unsat-but-solvable", cfg + ": depth " + std::to_string(d) + " is reported unsatisfiable, but a solution of height " + std::to_string(h) + " exists");
    if (o.sat >= 0 && (h < 0 || o.sat < h)) return bad(v, "sat-but-unsolvable", cfg + ": depth " + std::to_string(o.sat) + " is reported satisfiable, but the least height is " + std::to_string(h));
    if (o.sat < 0 && !o.limit) return bad(v, "no-answer", cfg);
    if (o.sat >= 0 && cfg.find(" -o") != string::npos && !optimisation(c, r.out, o, v)) return v;
    if (o.sat >= 0) { v.tags.insert("sat:" + oc); if (o.sat >= 3) v.tags.insert("depth>=3"); } else v.tags.insert("unsat:" + oc);
    if ((o.sat > 1) || (o.sat < 0 && o.unsat.size() >= 3)) { v.nontrivial = true; v.sample = cfg; } return v;
  }
};

struct P17 : Prop {
  string id() override { return "P17"; }
  string rule() override { return "A case is a generated HTN problem (also beyond the reach of the exact reference), a rewriting of it that keeps decomposition heights, and two SAT configurations; non-trivial when both answer satisfiable at a depth above one."; }
  long quickN() override { return 5000; } long thoroughN() override { return 400000; }
  vector<string> requiredTags() override { return {"sat:total-order", "sat:partial-order", "both-unsat"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 17, i); Case c; c.hasP = true; c.p = r.p(3) ? satWide(r) : r.p(60) ? bigProblem(r, th) : satProblem(r, th); if (r.p(30)) addPrecTasks(c.p, r); if (r.p(50)) annotate(c.p, r); c.cfg = {pickSat(r), pickSat(r)}; c.ext["_limit"] = r.in(4, 6); c.ext["_seed"] = r.upto(1 << 30); c.ext["_mask"] = r.upto(32); c.ext["_sseed"] = r.p(50) ? r.in(1, 1 << 30) : 0; return c; }
  Verdict eval(const Case &c) override {
    Verdict v; if (c.cfg.size() < 2) return v; ptags(c, v); if (c.p.nA() >= 256) v.tags.insert("wide"); if (!c.p.strict.empty()) v.tags.insert("strict-group"); if (!c.p.mutex.empty()) v.tags.insert("mutex-group"); if (!c.p.inv.empty()) v.tags.insert("known-invariant"); long m = c.ext.at("_mask"); Rng r(c.ext.at("_seed"), 7, 7); Problem q = c.p; if (m & 1) q = dupMethod(q, r); if (m & 2) q = redundantOrders(q, r); if (m & 4) q = inflate(q, r.upto(1 << 30), r.in(1, 40), r.p(50) ? r.in(1, 30) : 0); if (m & 8) q = permute(q, r); if (m & 16) for (auto *L : {&q.strict, &q.mutex, &q.inv}) L->clear();
    SatOut o[2]; for (int k = 0; k < 2; k++) { Run x = run_engine(k ? q : c.p, c.cfg[k], 900, c.ext.at("_limit"), c.ext.at("_sseed")); if (x.cpu) { v.tags.insert("cpu-limit"); return v; } if (x.sig || x.code) return bad(v, "crash", c.cfg[k] + ": " + crashmsg(x)); o[k] = sat_out(x.out); if (o[k].sat < 0 && !o[k].limit) return bad(v, "no-answer", c.cfg[k]); }
    if (o[0].sat != o[1].sat) return bad(v, "depth-differs", c.cfg[0] + ": first satisfiable depth " + std::to_string(o[0].sat) + "; " + c.cfg[1] + " on an equivalent rewriting (mask " + std::to_string(m) + "): " + std::to_string(o[1].sat));
    if (o[0].sat > 0) { v.tags.insert(string("sat:") + ordClass(c.p)); if (o[0].sat > 1) { v.nontrivial = true; v.sample = c.cfg[0] + " vs " + c.cfg[1]; } } else v.tags.insert("both-unsat"); return v;
  }
};
