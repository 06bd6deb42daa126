// Properties of the progression search, checked on the planner's real main program.
#pragma once
#include "engine.hpp"
using namespace fw;
extern "C" long verif_fake_clock_ms; // >0: every gettimeofday call advances a fake clock by that many ms

static GenOpt baseOpt(Rng &r, bool thorough, int ord = -1) {
  GenOpt o; int k = ord >= 0 ? ord : r.upto(3); o.ord = k == 0 ? O_TO : k == 1 ? O_CHAIN : O_PO;
  o.rec = r.p(60) ? 0 : r.p(60) ? 1 : 2;
  o.maxF = r.p(70) ? 5 : 9; o.maxA = r.p(75) ? 6 : 12; o.maxAbs = r.p(75) ? 4 : 7; o.maxMeth = r.in(1, 4); o.maxSub = r.in(2, thorough && r.p(30) ? 5 : 4);
  if (r.p(15)) { o.maxF = 2; o.maxA = 2; o.maxSub = 3; }
  o.multiTop = r.p(15);
  o.guide = r.p(50) ? 85 : 30;
  o.twin = r.p(40) ? r.in(20, 90) : 0;
  return o;
}
static const vector<string> &heurs() {
  static const vector<string> h{"zero", "modDepth", "modDepth(invert)", "mixedModDepth", "mixedModDepth(invert)", "cost", "cost(invert)", "rc2(ff)", "rc2(add)", "rc2(lmc)", "rc2(filter)", "rc2(ff;cost)", "rc2(ff;mixed)", "rc2(add;cost)", "rc2(add;mixed)", "rc2(lmc;cost)", "rc2(lmc;mixed)", "rc2(lmc;distance;no)", "rc2(ff;cost;no)", "rc2(filter;cost;no)", "rc2(h=add;est=mixed;taskcount=no)"};
  return h;
}
static string pickVis(Rng &r) { string s; if (r.p(25)) s += " -T"; if (r.p(25)) s += " -Q"; if (r.p(15)) s += " --noLayers"; if (r.p(15)) s += " --noOrderPairs"; if (r.p(20)) s += " --noParallelSequences"; return s; }
static string pickCfg(Rng &r) {
  string s;
  if (r.p(90)) { s += "-H " + r.pick(heurs()); if (r.p(25)) s += " -H " + r.pick(heurs()); if (r.p(10)) s += " -H " + r.pick(heurs()); }
  if (r.p(60)) s += string(" -g ") + (r.p(25) ? "path" : r.p(33) ? "action" : r.p(50) ? "mixed" : "none");
  if (r.p(30)) s += " -w " + std::to_string(r.in(1, 6));
  if (r.p(30)) s += " -S " + std::to_string(r.in(0, 100000));
  if (r.p(20)) s += " --suboptimal";
  return s + pickVis(r);
}
// -O and --noGIcheck are documented to make duplicate detection (hence verdicts) incomplete: they only occur in validity checks
static string pickAnyCfg(Rng &r) { string s = pickCfg(r); if (r.p(15)) s += " -O"; if (r.p(15)) s += " --noGIcheck"; return s; }
static Problem withInfl(const Case &c) { auto g = [&](const char *k) { auto it = c.ext.find(k); return it == c.ext.end() ? 0L : it->second; }; return inflate(c.p, g("_iseed"), g("dummyfacts"), g("dummyacts")); }
static void maybeInflate(Rng &r, Case &c, int pct = 20) { if (r.p(pct)) { c.ext["_iseed"] = r.upto(1000000); c.ext["dummyfacts"] = r.p(50) ? r.in(1, 10) : r.in(20, 140); if (r.p(60)) c.ext["dummyacts"] = r.p(50) ? r.in(1, 10) : r.in(30, 150); } }
static const char *ordClass(const Problem &p) {
  if (totally_ordered(p)) return "total-order";
  bool par = true; for (auto &m : p.met) { if (m.task == p.init) { if (!method_chains(m)) par = false; } else if (!method_total(m)) par = false; for (int s : m.sub) if (s == p.init) par = false; }
  return par ? "parallel-chains" : "partial-order";
}
static void ptags(const Case &c, Verdict &v) { v.tags.insert(ordClass(c.p)); if (is_recursive(c.p)) v.tags.insert("recursive"); if (c.ext.count("dummyfacts")) v.tags.insert("inflated"); }
static Verdict bad(Verdict v, const string &cls, const string &msg) { v.k = Verdict::FAIL; v.cls = cls; v.msg = msg; return v; }
static string planText(const string &o) { size_t b = o.find("==>"); if (b == string::npos) return ""; size_t e = o.find("<==", b); return o.substr(b, e == string::npos ? 4000 : e - b + 3); }

// a larger, mostly solvable problem (for validity and agreement checks beyond the reach of the exact reference)
static Problem bigProblem(Rng &r, bool th) {
  GenOpt o = baseOpt(r, th); o.minF = 6; o.maxF = r.in(8, 30); o.minA = 5; o.maxA = r.in(8, th ? 40 : 24); o.minAbs = 3; o.maxAbs = r.in(4, 10); o.guide = r.p(75) ? 100 : 40; o.maxLen = 60; o.rec = r.p(70) ? 0 : 1; return generate(r, o);
}

struct P01 : Prop { // every printed plan is a solution; printed numbers are right
  string id() override { return "P01"; }
  string rule() override { return "A case is a generated HTN problem (total order / parallel chains / partial order, recursion, SAS+ variables, id inflation) with two search configurations; it is non-trivial when at least one run printed a plan with two or more actions, all of which was re-verified."; }
  long quickN() override { return 14000; } long thoroughN() override { return 2000000; }
  vector<string> requiredTags() override { return {"plan:total-order", "plan:parallel-chains", "plan:partial-order", "recursive", "inflated", "plan-with-ordering-choice"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 1, i); Case c; c.hasP = true; c.p = r.p(35) ? bigProblem(r, th) : generate(r, baseOpt(r, th)); maybeInflate(r, c); for (int k = 0; k < 2; k++) c.cfg.push_back(pickAnyCfg(r)); return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); Problem e = withInfl(c);
    for (auto &cfg : c.cfg) { Run r = run_engine(e, cfg, 400); Out o = parse_out(r.out);
      if (r.cpu) { v.tags.insert("cpu-limit"); continue; }
      if (r.sig || r.code) return bad(v, "crash", cfg + ": " + crashmsg(r));
      if (o.st == Out::NONE) return bad(v, "no-status", cfg);
      bool hasPlan = r.out.find("==>\n") != string::npos;
      if (o.st != Out::SOLVED) { if (hasPlan) return bad(v, "plan-without-solved", cfg); continue; }
      Plan pl; string err; int cost = 0; if (!parse_plan(r.out, pl, err) || !verify_plan(e, pl, err, &cost)) return bad(v, "invalid-plan", cfg + ": " + err + "\n" + planText(r.out));
      if (cost != o.cost) return bad(v, "reported-cost", cfg + ": reported cost " + std::to_string(o.cost) + " but the plan costs " + std::to_string(cost) + "\n" + planText(r.out));
      long len = pl.prim.size() + pl.dec.size(); if (len != o.length) return bad(v, "reported-length", cfg + ": reported length " + std::to_string(o.length) + " but the plan has " + std::to_string(len) + " steps\n" + planText(r.out));
      v.tags.insert(string("plan:") + ordClass(c.p)); if (pl.prim.size() >= 2) { v.nontrivial = true; v.sample = cfg; } if (!totally_ordered(c.p) && pl.prim.size() >= 3) v.tags.insert("plan-with-ordering-choice");
    }
    return v;
  }
};

struct P02 : Prop { // Solved / Proven unsolvable agree with an exact reference
  string id() override { return "P02"; }
  string rule() override { return "A case is a small generated HTN problem whose solvability an independent exact reference decides, plus two search configurations; non-trivial when the reference decided and a run returned a verdict on a problem with more than one applicable method."; }
  long quickN() override { return 30000; } long thoroughN() override { return 2500000; }
  vector<string> requiredTags() override { return {"unsolvable:total-order", "unsolvable:parallel-chains", "unsolvable:partial-order", "solvable:total-order", "solvable:parallel-chains", "solvable:partial-order", "recursive", "inflated"}; }
  Case gen(uint64_t seed, long i, bool th) override {
    Rng r(seed, 2, i); Case c; c.hasP = true; GenOpt o = baseOpt(r, th, r.p(20) ? 0 : r.p(40) ? 1 : 2); if (r.p(50)) { o.rec = 0; o.twin = r.in(40, 100); o.maxSub = r.in(3, 5); o.maxA = 5; o.maxMeth = r.in(1, 2); }
    c.p = r.p(25) ? isoTrap(r) : generate(r, o); maybeInflate(r, c, 15); for (int k = 0; k < 2; k++) c.cfg.push_back(pickCfg(r)); return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); int rc = ref_solve(c.p, 0, 6000); string oc = ordClass(c.p);
    if (rc == -2) { v.tags.insert("reference-undecided"); v.k = Verdict::SKIP; v.cls = "reference-undecided"; return v; }
    v.tags.insert((rc < 0 ? "unsolvable:" : "solvable:") + oc);
    Problem e = withInfl(c);
    for (auto &cfg : c.cfg) { Run r = run_engine(e, cfg, 400); Out o = parse_out(r.out);
      if (r.cpu) { v.tags.insert("cpu-limit"); continue; }
      if (r.sig || r.code) return bad(v, "crash", cfg + ": " + crashmsg(r));
      if (o.st == Out::NONE) return bad(v, "no-status", cfg);
      if (o.st == Out::SOLVED && rc < 0) return bad(v, "solved-unsolvable", cfg + ": reports a solution, but the problem has none\n" + planText(r.out));
      if (o.st == Out::UNSOLVABLE && rc >= 0) return bad(v, "unsound-unsolvable:" + oc, cfg + ": reports 'Proven unsolvable', but the problem has a solution of cost " + std::to_string(rc));
      if (o.st == Out::TIMEOUT) return bad(v, "timeout-without-limit", cfg);
      if (c.p.met.size() > 1) { v.nontrivial = true; v.sample = cfg; }
    }
    return v;
  }
};

struct P03 : Prop { // verdict and optimal cost do not depend on presentation / configuration
  string id() override { return "P03"; }
  string rule() override { return "A case is a generated HTN problem and a semantics-preserving rewriting of it (renumbering, redundant orderings, wrapping, inlining, duplicate methods, unreachable facts and actions) with two configurations; non-trivial when both finish and the rewritten file differs."; }
  long quickN() override { return 22000; } long thoroughN() override { return 1500000; }
  vector<string> requiredTags() override { return {"both-solved", "both-unsolvable", "rw:permute", "rw:orders", "rw:wrap", "rw:inline", "rw:dup", "rw:inflate", "cost-compared"}; }
  Case gen(uint64_t seed, long i, bool th) override {
    Rng r(seed, 3, i); Case c; c.hasP = true; if (r.p(50)) c.p = bigProblem(r, th); else c.p = generate(r, baseOpt(r, th));
    c.ext["_seed"] = r.upto(1 << 30); int m = 0; for (int b = 0; b < 6; b++) if (r.p(35)) m |= 1 << b; if (!m) m = 1; c.ext["_mask"] = m;
    if (r.p(40)) { string g = r.p(50) ? "-g action -H zero" : r.p(50) ? "-g mixed -H zero" : "-g action -H rc2(lmc;cost)"; c.ext["_cost"] = 1; c.cfg = {g + pickVis(r), g + pickVis(r)}; if (g.find("mixed") != string::npos) c.ext["_mask"] = m & ~(4 | 8) ? m & ~(4 | 8) : 1; }
    else c.cfg = {pickCfg(r), pickCfg(r)};
    return c; }
  Verdict eval(const Case &c) override {
    Verdict v; if (c.cfg.size() < 2) return v; ptags(c, v); long m = c.ext.at("_mask"); Rng r(c.ext.at("_seed"), 5, 5); Problem q = c.p;
    if (m & 4) { q = wrapTasks(q, r); v.tags.insert("rw:wrap"); } if (m & 8) { q = inlineTasks(q, r); v.tags.insert("rw:inline"); } if (m & 16) { q = dupMethod(q, r); v.tags.insert("rw:dup"); }
    if (m & 2) { q = redundantOrders(q, r); v.tags.insert("rw:orders"); } if (m & 32) { q = inflate(q, r.upto(1 << 30), r.in(1, 80), r.p(60) ? r.in(1, 80) : 0); v.tags.insert("rw:inflate"); } if (m & 1) { q = permute(q, r); v.tags.insert("rw:permute"); }
    Out o[2]; string outs[2];
    for (int k = 0; k < 2; k++) { Run x = run_engine(k ? q : c.p, c.cfg[k], 400); if (x.cpu) { v.tags.insert("cpu-limit"); return v; } if (x.sig || x.code) return bad(v, "crash", c.cfg[k] + ": " + crashmsg(x)); o[k] = parse_out(x.out); outs[k] = x.out; if (o[k].st == Out::NONE) return bad(v, "no-status", c.cfg[k]); }
    auto nm = [](const Out &x) { return x.st == Out::SOLVED ? "Solved" : x.st == Out::UNSOLVABLE ? "Proven unsolvable" : "Timeout"; };
    if (o[0].st != o[1].st) return bad(v, "verdict-differs", c.cfg[0] + " says " + nm(o[0]) + ", after an equivalent rewriting (mask " + std::to_string(m) + ") " + c.cfg[1] + " says " + nm(o[1]) + "\nrewritten problem:\n" + to_sas(q));
    v.tags.insert(o[0].st == Out::SOLVED ? "both-solved" : "both-unsolvable"); v.nontrivial = true; v.sample = c.cfg[0] + " vs " + c.cfg[1];
    if (c.ext.count("_cost") && o[0].st == Out::SOLVED) { Plan p0, p1; string err; if (!parse_plan(outs[0], p0, err) || !parse_plan(outs[1], p1, err)) return bad(v, "no-plan", err); bool mx = c.cfg[0].find("mixed") != string::npos; long a = o[0].cost + (mx ? p0.dec.size() : 0), b = o[1].cost + (mx ? p1.dec.size() : 0); v.tags.insert("cost-compared");
      if (a != b) return bad(v, "optimum-differs", "optimal value " + std::to_string(a) + " (" + c.cfg[0] + "), after an equivalent rewriting (mask " + std::to_string(m) + ") " + std::to_string(b) + " (" + c.cfg[1] + ")"); }
    return v;
  }
};

struct P04 : Prop { // A* with admissible heuristics is optimal
  string id() override { return "P04"; }
  string rule() override { return "A case is a small generated HTN problem with an optimal configuration (A*, weight 1, admissible heuristic) whose optimum an exact reference computes; non-trivial when the problem is solvable with an optimum above 1 and the planner solved it."; }
  long quickN() override { return 14000; } long thoroughN() override { return 2000000; }
  vector<string> requiredTags() override { return {"action+zero", "action+lmc", "path+zero", "path+lmc", "mixed+zero", "mixed+lmc", "total-order", "parallel-chains", "partial-order"}; }
  Case gen(uint64_t seed, long i, bool th) override {
    Rng r(seed, 4, i); Case c; c.hasP = true; GenOpt o = baseOpt(r, th); o.guide = 90; o.costMode = r.p(70) ? r.in(1, 2) : -1; o.maxMeth = r.in(2, 4); c.p = generate(r, o);
    if (r.p(65)) { // more executable alternatives: fewer preconditions, several methods per task, repeated subtasks, distinct costs
      Problem &p = c.p; int keep = r.upto(50); for (auto &a : p.act) { vector<int> k; for (int f : a.pre) if (r.p(keep)) k.push_back(f); a.pre = k; if (r.p(60)) a.cost = r.in(0, 9); }
      int ab = p.nT() - p.nA(); for (int k = r.in(1, ab + 1); k--;) { Method m = r.pick(p.met); if (m.task == p.init && r.p(70)) continue; m.name = "alt" + std::to_string(k); for (int &x : m.sub) if (x < p.nA() && r.p(50)) x = r.upto(p.nA()); else if (r.p(15)) x = m.sub[r.upto(m.sub.size())]; p.met.push_back(m); }
      if (!normalise(p)) c.p = generate(r, o); }
    maybeInflate(r, c, 10);
    static const vector<std::array<string, 3>> k{{"action", "zero", "action+zero"}, {"action", "rc2(lmc;cost)", "action+lmc"}, {"action", "rc2(lmc;cost;no)", "action+lmc"}, {"path", "zero", "path+zero"}, {"path", "rc2(lmc;distance;no)", "path+lmc"}, {"mixed", "zero", "mixed+zero"}, {"mixed", "rc2(lmc;mixed;no)", "mixed+lmc"}, {"action", "rc2(filter;cost;no)", "action+filter"}};
    auto &x = k[r.upto(k.size())]; c.ext["_metric"] = x[0] == "action" ? 0 : x[0] == "path" ? 1 : 2; c.cfg.push_back("-g " + x[0] + " -H " + x[1] + (r.p(30) ? " -S " + std::to_string(r.upto(1000)) : "") + pickVis(r)); return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); int mt = c.ext.at("_metric"); int rc = ref_solve(c.p, mt, 6000); if (rc == -2) { v.k = Verdict::SKIP; v.cls = "reference-undecided"; return v; }
    const string &cfg = c.cfg[0]; string mn = mt == 0 ? "action" : mt == 1 ? "path" : "mixed"; v.tags.insert(mn + (cfg.find("zero") != string::npos ? "+zero" : cfg.find("lmc") != string::npos ? "+lmc" : "+filter"));
    Problem e = withInfl(c); Run r = run_engine(e, cfg, 400); Out o = parse_out(r.out);
    if (r.cpu) { v.tags.insert("cpu-limit"); return v; }
    if (r.sig || r.code) return bad(v, "crash", cfg + ": " + crashmsg(r));
    if (o.st == Out::SOLVED) { Plan pl; string err; if (!parse_plan(r.out, pl, err)) return bad(v, "no-plan", err); long a = 0; map<string, int> cost; for (auto &x : e.act) cost[x.name] = x.cost; for (auto &x : pl.prim) a += mt == 1 ? 1 : cost[x.second]; if (mt) a += pl.dec.size();
      if (a != rc) return bad(v, "suboptimal", cfg + ": plan value " + std::to_string(a) + ", optimum " + std::to_string(rc) + "\n" + planText(r.out)); if (rc > 1) { v.nontrivial = true; v.sample = cfg; } }
    else if (o.st == Out::UNSOLVABLE && rc >= 0) return bad(v, "unsound-unsolvable", cfg + ": 'Proven unsolvable' but an optimum of " + std::to_string(rc) + " exists");
    return v;
  }
};

static string stripTimes(const string &o) { // drop the lines that report wall-clock dependent numbers
  string r; std::istringstream in(o); string l; while (std::getline(in, l)) { if (l.find("econd") != string::npos || l.find(" ms") != string::npos || l.find("ms.") != string::npos || l.find("time") != string::npos || l.find("visitime") != string::npos || l.find("took") != string::npos) continue; r += l + "\n"; } return r; }
struct P08 : Prop { // determinism for a fixed seed
  string id() override { return "P08"; }
  string rule() override { return "A case is a generated HTN problem and one configuration with a random seed, run twice in processes with different heap layouts, environment and working directory; non-trivial when a plan was printed or at least ten search nodes were generated."; }
  long quickN() override { return 12000; } long thoroughN() override { return 700000; }
  vector<string> requiredTags() override { return {"total-order", "partial-order", "solved"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 8, i); Case c; c.hasP = true; c.p = r.p(50) ? bigProblem(r, th) : generate(r, baseOpt(r, th)); c.cfg.push_back(pickAnyCfg(r)); if (c.cfg[0].find("-S") == string::npos && r.p(70)) c.cfg[0] += " -S " + std::to_string(r.upto(100000)); c.ext["_noise"] = r.upto(1 << 20) + 1; return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); string f = scratch() + "/in.sas"; write_file(f, to_sas(c.p)); string cfg = c.cfg[0]; Run a = run_child([&]() { call_engine(cfg, f); }, 400);
    long nz = c.ext.at("_noise"); string sub = scratch() + "/d"; mkdir(sub.c_str(), 0700);
    Run b = run_child([&]() { Rng q(nz); vector<void *> keep; for (int i = 0; i < 3000; i++) { size_t n = q.in(8, 5000); void *x = malloc(n); memset(x, 0xA5, n); keep.push_back(x); } for (auto *x : keep) if (q.p(70)) free(x); setenv("VERIF_NOISE", string(q.upto(5000), 'x').c_str(), 1); setenv("TZ", "UTC-7", 1); if (chdir(sub.c_str())) {} char pad[65536]; memset(pad, 0x5A, q.in(1, 65536)); asm volatile("" : : "r"(pad) : "memory"); call_engine(cfg, f); }, 800);
    if (a.cpu || b.cpu) { v.tags.insert("cpu-limit"); return v; }
    if (a.sig || a.code || b.sig || b.code) return bad(v, "crash", cfg + ": " + crashmsg(a.sig || a.code ? a : b));
    string x = stripTimes(a.out), y = stripTimes(b.out);
    if (x != y) { std::istringstream i1(x), i2(y); string l1, l2; while (true) { bool g = bool(std::getline(i1, l1)), h = bool(std::getline(i2, l2)); if (!g) l1 = "(end)"; if (!h) l2 = "(end)"; if (l1 != l2 || (!g && !h)) break; } return bad(v, "nondeterministic", cfg + ": two runs differ: '" + l1 + "' / '" + l2 + "'"); }
    Out o = parse_out(a.out); if (o.st == Out::SOLVED) v.tags.insert("solved"); size_t p = a.out.find("- Generated "); if (o.st == Out::SOLVED || (p != string::npos && atol(a.out.c_str() + p + 12) >= 10)) { v.nontrivial = true; v.sample = cfg; }
    return v;
  }
};

struct P09 : Prop { // time limit
  string id() override { return "P09"; }
  string rule() override { return "A case is a generated HTN problem with a search space larger than one time-check interval and a time limit, run on a fake clock that jumps past (or stays below) the limit; non-trivial when the limit was hit or the clock stayed below it during more than one check interval."; }
  long quickN() override { return 2400; } long thoroughN() override { return 60000; }
  vector<string> requiredTags() override { return {"timeout", "finished-below-limit", "solved-first"}; }
  static void wide(Rng &r, Case &c) { // one task with more methods than a check interval: the limit is noticed after a single expansion, possibly with an empty fringe
    c.ext["_rand"] = 1; Problem p; for (int f = 0; f < 3; f++) { p.facts.push_back("+f" + std::to_string(f) + "[]"); p.vars.push_back({f, f, "v" + std::to_string(f)}); }
    p.goal = {r.p(50) ? 0 : 1}; Action dead; dead.name = "dead[]"; dead.pre = {0}; dead.add = {1}; Action idle; idle.name = "idle[]"; idle.add = {2}; Action win; win.name = "win[]"; win.add = {0, 1}; p.act = {dead, idle, win}; p.abs = {"__top[]", "T[]"}; p.init = 3;
    Method t; t.name = "mt"; t.task = 3; t.sub = {4}; p.met.push_back(t); int n = r.in(4900, 5400), k = r.upto(4); for (int i = 0; i < n; i++) { Method m; m.name = "m" + std::to_string(i); m.task = 4; m.sub = {k == 0 || r.p(95) ? 0 : k == 1 ? 1 : r.p(20) ? 2 : 1}; if (r.p(20)) m.sub.push_back(r.p(50) ? 0 : 1), m.ord = {{0, 1}}; p.met.push_back(m); }
    normalise(p); c.p = p; }
  Case gen(uint64_t seed, long i, bool th) override {
    Rng r(seed, 9, i); Case c; c.hasP = true; Problem &p = c.p; int k = r.in(10, 14), par = r.in(1, 2); // k switches that can be thrown in any order: 2^k states per network
    for (int f = 0; f < k; f++) { p.facts.push_back("+f" + std::to_string(f) + "[]"); p.vars.push_back({f, f, "v" + std::to_string(f)}); if (r.p(30)) p.s0.push_back(f); }
    bool never = r.p(55); if (never) { p.facts.push_back("+never[]"); p.vars.push_back({k, k, "vnever"}); p.goal.push_back(k); } else for (int f = 0; f < k; f++) if (r.p(60)) p.goal.push_back(f);
    for (int f = 0; f < k; f++) for (int s = 0; s < 2; s++) { Action a; a.name = string(s ? "set" : "clr") + std::to_string(f) + "[]"; a.cost = r.upto(3); (s ? a.add : a.del).push_back(f); if (r.p(30)) a.pre.push_back(r.upto(k)); p.act.push_back(a); }
    { Action a; a.name = "end[]"; p.act.push_back(a); } int nA = p.nA(); p.abs = {"__top[]"}; p.init = nA; Method t; t.name = "mt"; t.task = nA;
    for (int q = 0; q < par; q++) { int T = nA + 1 + q; p.abs.push_back("T" + std::to_string(q) + "[]"); t.sub.push_back(T); for (int a = 0; a < 2 * k; a++) if (r.p(par == 1 ? 100 : 55)) { Method m; m.name = "m" + std::to_string(q) + "_" + std::to_string(a); m.task = T; m.sub = {a, T}; m.ord = {{0, 1}}; p.met.push_back(m); } Method m; m.name = "e" + std::to_string(q); m.task = T; m.sub = {nA - 1}; p.met.push_back(m); }
    if (r.p(30)) for (int q = 0; q + 1 < par; q++) t.ord.push_back({q, q + 1}); p.met.push_back(t); if (r.p(25)) { c.p = generate(r, baseOpt(r, th)); c.ext["_rand"] = 1; } else normalise(p);
    if (r.p(12)) wide(r, c);
    c.cfg.push_back(string("-H ") + (r.p(50) ? "zero" : r.p(50) ? "modDepth" : "cost") + (r.p(50) ? " -g none" : " -g path") + (r.p(30) ? " --suboptimal" : "") + pickVis(r)); c.ext["limit"] = r.in(1, 50); c.ext["_jump"] = r.p(65); return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); long lim = c.ext.at("limit"); if (lim < 1) lim = 1; bool jump = c.ext.at("_jump"); string f = scratch() + "/in.sas"; write_file(f, to_sas(c.p)); string cfg = c.cfg[0] + " -t " + std::to_string(lim);
    Run r = run_child([&]() { verif_fake_clock_ms = jump ? lim * 1000 + 1500 : 1; call_engine(cfg, f); }, jump ? 3000 : 300);
    Out o = parse_out(r.out);
    if (r.cpu) { if (jump && !c.ext.count("_rand")) return bad(v, "limit-ignored", cfg + ": the clock is past the limit, yet the search goes on"); v.tags.insert("cpu-limit"); return v; }
    if (r.sig || r.code) return bad(v, "crash", cfg + ": " + crashmsg(r));
    if (o.st == Out::NONE) return bad(v, "no-status", cfg);
    long gen = 0; size_t p = r.out.find("- Generated "); if (p != string::npos) gen = atol(r.out.c_str() + p + 12);
    bool ann = r.out.find("Reached time limit") != string::npos;
    if (!jump && (o.st == Out::TIMEOUT || ann)) return bad(v, "early-timeout", cfg + ": Timeout although only milliseconds passed");
    if (jump && gen > 20000) return bad(v, "limit-late", cfg + ": " + std::to_string(gen) + " nodes generated after the limit had passed");
    if (ann && o.st == Out::UNSOLVABLE) return bad(v, "timeout-as-unsolvable", cfg + ": search stopped at the limit but reports 'Proven unsolvable'");
    if (o.st == Out::UNSOLVABLE) { int rc = ref_solve(c.p, 0, 4000); if (rc >= 0) return bad(v, "unsound-unsolvable", cfg); }
    if (o.st == Out::SOLVED) { Plan pl; string err; if (!parse_plan(r.out, pl, err) || !verify_plan(c.p, pl, err)) return bad(v, "invalid-plan", cfg + ": " + err); if (jump) v.tags.insert("solved-first"); }
    if (o.st == Out::TIMEOUT) { v.tags.insert("timeout"); v.nontrivial = true; if (r.out.find("==>\n") != string::npos) return bad(v, "plan-with-timeout", cfg); }
    if (!jump && gen > 5000) { v.tags.insert("finished-below-limit"); v.nontrivial = true; }
    return v;
  }
};
