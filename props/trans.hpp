// P18/P19: the translation to classical planning. The external planner that the translation calls is replaced by an
// exact explicit-state search over the SAS+ file it was given (linked in place of system()).
struct SasOp { string name; int cost = 0; vector<pair<int, int>> pre; struct Eff { vector<pair<int, int>> cond; int var, val; }; vector<Eff> eff; };
struct SasTask { int metric = 0; vector<int> range; vector<vector<pair<int, int>>> mutex; vector<int> init; vector<pair<int, int>> goal; vector<SasOp> ops; };
// strict reader of the Fast Downward input format, version 3
static bool sas_read(const string &file, SasTask &t, string &err) {
  std::ifstream in(file); string l; bool ok = true; auto ln = [&]() -> string & { do { if (!std::getline(in, l)) { if (ok) err = "unexpected end of file"; ok = false; l = ""; return l; } } while (l.find_first_not_of(" \t\r") == string::npos); return l; };
  auto kw = [&](const char *k) { if (!ok) return; if (ln() != k && ok) { err = string("expected '") + k + "', found '" + l + "'"; ok = false; } };
  auto nums = [&](size_t n) { vector<int> v; if (!ok) return vector<int>(n, 0); std::istringstream s(ln()); int x; while (s >> x) v.push_back(x); if (ok && (!s.eof() || (n && v.size() != n))) { err = "expected " + std::to_string(n) + " numbers, found '" + l + "'"; ok = false; } if (n) v.resize(n); return v; };
  auto val = [&](int v, int x) { if (ok && (v < 0 || v >= (int)t.range.size() || x < 0 || x >= t.range[v])) { err = "no value " + std::to_string(x) + " of variable " + std::to_string(v) + " near '" + l + "'"; ok = false; } };
  kw("begin_version"); if (ok && nums(1)[0] != 3) { err = "version"; return false; } kw("end_version"); kw("begin_metric"); t.metric = nums(1)[0]; kw("end_metric");
  int n = nums(1)[0]; for (int i = 0; ok && i < n; i++) { kw("begin_variable"); ln(); if (nums(1)[0] != -1 && ok) { err = "axiom layer"; return false; } int k = nums(1)[0]; if (ok && k < 1) { err = "variable without values"; return false; } t.range.push_back(k); for (int j = 0; ok && j < k; j++) ln(); kw("end_variable"); }
  n = nums(1)[0]; for (int i = 0; ok && i < n; i++) { kw("begin_mutex_group"); int k = nums(1)[0]; t.mutex.push_back({}); for (int j = 0; ok && j < k; j++) { auto v = nums(2); val(v[0], v[1]); t.mutex.back().push_back({v[0], v[1]}); } kw("end_mutex_group"); }
  kw("begin_state"); for (size_t i = 0; ok && i < t.range.size(); i++) { int x = nums(1)[0]; val(i, x); t.init.push_back(x); } kw("end_state");
  kw("begin_goal"); n = nums(1)[0]; for (int i = 0; ok && i < n; i++) { auto v = nums(2); val(v[0], v[1]); t.goal.push_back({v[0], v[1]}); } kw("end_goal");
  n = nums(1)[0]; for (int i = 0; ok && i < n; i++) { SasOp o; kw("begin_operator"); o.name = ln(); int k = nums(1)[0]; for (int j = 0; ok && j < k; j++) { auto v = nums(2); val(v[0], v[1]); o.pre.push_back({v[0], v[1]}); }
    k = nums(1)[0]; for (int j = 0; ok && j < k; j++) { auto v = nums(0); if (!ok) break; if (v.empty() || v[0] < 0 || (int)v.size() != 4 + 2 * v[0]) { err = "bad effect '" + l + "' of " + o.name; ok = false; break; } SasOp::Eff e; for (int c = 0; c < v[0]; c++) { val(v[1 + 2 * c], v[2 + 2 * c]); e.cond.push_back({v[1 + 2 * c], v[2 + 2 * c]}); } int b = 1 + 2 * v[0]; e.var = v[b]; e.val = v[b + 2]; val(e.var, e.val); if (v[b + 1] != -1) { val(e.var, v[b + 1]); o.pre.push_back({e.var, v[b + 1]}); } o.eff.push_back(e); }
    o.cost = nums(1)[0]; if (ok && o.cost < 0) { err = "negative cost"; ok = false; } kw("end_operator"); t.ops.push_back(o); }
  int ax = nums(1)[0]; if (ok && ax != 0) { err = "axioms"; ok = false; } if (ok) while (std::getline(in, l)) if (l.find_first_not_of(" \t\r") != string::npos) { err = "trailing text"; ok = false; }
  return ok;
}
// 1 solved, 0 unsolvable, -1 state limit
static int sas_solve(const SasTask &t, int mode, Rng &r, size_t limit, vector<int> &plan, long &cost) {
  long work = 0, maxWork = 400L * limit;
  int nv = t.range.size(); vector<int> order(t.ops.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i; r.shuffle(order);
  // operators indexed by one of their precondition values to avoid testing all of them
  vector<vector<vector<int>>> ix(nv); for (int v = 0; v < nv; v++) ix[v].resize(t.range[v]); vector<int> always; vector<pair<int, int>> key(t.ops.size(), {-1, 0});
  for (int o : order) { pair<int, int> k{-1, 0}; for (auto &p : t.ops[o].pre) if (k.first < 0 || t.range[p.first] >= t.range[k.first]) k = p; if (k.first < 0) always.push_back(o); else ix[k.first][k.second].push_back(o); }
  typedef std::basic_string<char16_t> SK; struct Nd { SK s; int par, op; long g; }; vector<Nd> nd; std::unordered_map<SK, int, std::hash<SK>> id; SK s0; for (int x : t.init) s0.push_back(x); nd.push_back({s0, -1, -1, 0}); id[s0] = 0;
  auto cmp = [](const pair<long, int> &a, const pair<long, int> &b) { return a > b; }; std::priority_queue<pair<long, int>, vector<pair<long, int>>, decltype(cmp)> q(cmp); q.push({0, 0}); vector<char> closed(1, 0); size_t exp = 0;
  while (!q.empty()) { int n = q.top().second; q.pop(); if (closed[n]) continue; closed[n] = 1; SK s = nd[n].s;
    bool goal = true; for (auto &g : t.goal) if (s[g.first] != g.second) goal = false; if (goal) { plan.clear(); cost = nd[n].g; for (int k = n; nd[k].par >= 0; k = nd[k].par) plan.push_back(nd[k].op); std::reverse(plan.begin(), plan.end()); return 1; }
    if (++exp > limit || nd.size() > 8 * limit || work > maxWork) return -1;
    auto go = [&](int o) { work++; auto &op = t.ops[o]; for (auto &p : op.pre) if (s[p.first] != p.second) return; SK x = s; work += op.eff.size(); for (auto &e : op.eff) { bool c = true; for (auto &y : e.cond) if (s[y.first] != y.second) c = false; if (c) x[e.var] = e.val; } long g = nd[n].g + (t.metric ? op.cost : 1); auto it = id.find(x); if (it == id.end()) { int k = nd.size(); id[x] = k; nd.push_back({x, n, o, g}); closed.push_back(0); q.push({mode == 0 ? k : mode == 1 ? r.upto(1 << 20) : g, k}); } else if (mode == 2 && !closed[it->second] && g < nd[it->second].g) { nd[it->second].par = n; nd[it->second].op = o; nd[it->second].g = g; q.push({g, it->second}); } };
    for (int o : always) go(o); for (int v = 0; v < nv; v++) for (int o : ix[v][s[v]]) go(o); }
  return 0;
}
static struct { int mode = 0; uint64_t seed = 1; size_t limit = 20000; int calls = 0, maxCalls = 1; long maxFile = 150000; bool altName = false; } g_fd;
extern "C" int __real_system(const char *); extern "C" int __wrap_system(const char *cmd) {
  string c = cmd; const string pre = "verifplanner --internal-plan-file "; if (c.compare(0, pre.size(), pre)) { printf("VERIF-REFUSED %s\n", cmd); return 127 << 8; }
  string plan = c.substr(pre.size(), c.find(' ', pre.size()) - pre.size()); size_t lt = c.rfind('<'); string sas = c.substr(c.find_first_not_of(' ', lt + 1)); while (!sas.empty() && sas.back() == ' ') sas.pop_back();
  if (access(plan.c_str(), F_OK) == 0 || access((plan + ".1").c_str(), F_OK) == 0) std::cout << "VERIF-STALE-PLAN" << std::endl;
  struct stat fs; if (++g_fd.calls > 1 && stat(sas.c_str(), &fs) == 0 && fs.st_size > g_fd.maxFile) { std::cout << "VERIF-SEARCH limit (file)" << std::endl; return 9; }
  SasTask t; string err; if (!sas_read(sas, t, err)) { std::cout << "VERIF-BADSAS " << err << std::endl; return 9; }
  Rng r(g_fd.seed, g_fd.calls); vector<int> p; long cost = 0; int k = sas_solve(t, g_fd.mode, r, g_fd.limit, p, cost);
  std::cout << "VERIF-SEARCH " << (k > 0 ? "solved" : k == 0 ? "exhausted" : "limit") << " metric=" << t.metric << std::endl;
  if (k > 0) { long oc = 0; std::ofstream o(g_fd.altName ? plan + ".1" : plan); for (int x : p) { o << "(" << t.ops[x].name << ")\n"; oc += t.ops[x].cost; } o << "; cost = " << cost << (t.metric ? " (general cost)\n" : " (unit cost)\n"); std::cout << "VERIF-COST " << oc << " " << cost << std::endl; return 0; }
  if (k < 0) return 9; if (g_fd.calls >= g_fd.maxCalls) return 9; // a code that stops the iteration
  static const int codes[] = {12, 11, 22, 23}; return codes[r.upto(4)] << 8;
}
// the planner's contract: a single method for the initial task, which occurs nowhere else
static bool singleTop(const Problem &p) { int k = 0; for (auto &m : p.met) { k += m.task == p.init; for (int s : m.sub) if (s == p.init) return false; } return k == 1; }
static Problem transProblem(Rng &r, bool th, int ord) {
  for (;;) { GenOpt o = baseOpt(r, th, ord); o.multiTop = false; o.maxSub = r.p(20) ? 1 : r.in(2, 4); o.maxAbs = r.in(1, 4); o.maxMeth = r.in(1, 3); o.maxF = r.p(60) ? 4 : 7; o.maxA = r.in(2, 5); o.guide = r.p(65) ? 90 : 30; o.rec = r.p(65) ? 0 : r.in(1, 2); Problem p = generate(r, o); if (r.p(25)) addPrecTasks(p, r); if (!singleTop(p)) continue; if (ord > 0 && string(ordClass(p)) == "total-order" && r.p(75)) continue; return p; }
}
struct TransOut { vector<vector<int>> bounds; vector<string> res; string used; bool stop = false; };
static TransOut trans_out(const string &o) { TransOut t; std::istringstream in(o); string l; while (std::getline(in, l)) { size_t p = l.find(" pgb:"); if (l.find("Number of actions: ") == 0 && p != string::npos) { std::istringstream s(l.substr(p + 5)); vector<int> v; int x; while (s >> x) v.push_back(x); t.bounds.push_back(v); } if (l.find("Generating with ") == 0) t.used = l.substr(16, l.find(" encoding") - 16); if (l.find("VERIF-SEARCH ") == 0) t.res.push_back(l.substr(13, l.find(' ', 13) - 13)); } return t; }
static Run run_trans(const Problem &p, const string &cfg, const Case &c, int cpu = 2000) {
  string f = scratch() + "/in.sas", s = scratch() + "/out.sas"; write_file(f, to_sas(p)); for (string x : {s, s + ".plan", s + ".plan.1"}) unlink(x.c_str());
  auto g = [&](const char *k, long d) { auto it = c.ext.find(k); return it == c.ext.end() ? d : it->second; }; if (g("_stale", 0)) { write_file(s + ".plan", "(stale)\n"); write_file(s + ".plan.1", "(stale)\n"); }
  g_fd.mode = g("_fdmode", 0); g_fd.seed = g("_fdseed", 1); g_fd.limit = g("_fdlimit", 4000); g_fd.maxFile = g_fd.limit * 40; g_fd.maxCalls = g("_fdcalls", 1); g_fd.altName = g("_alt", 0); g_fd.calls = 0;
  return run_child([&]() { call_engine("--translation --downward verifplanner --sasfile " + s + " " + cfg, f, 0); }, cpu);
}
static string pickTrans(Rng &r, int ord) { string s = " --transtype "; if (ord == 0) { if (r.p(50)) return " --transtype " + string(r.p(50) ? "to" : "push"); s += r.p(34) ? "push" : r.p(50) ? "postrips" : "pocond"; return s + " --forceTransType"; } int k = r.upto(ord == 1 ? 5 : 4); s += k == 0 ? "push" : k == 1 ? "postrips" : k == 2 ? "pocond" : k == 3 ? "push" : "parallelseq"; if ((ord != 1 || r.p(60)) && k != 4) s += " --forceTransType"; return s; }
static Case transCase(uint64_t seed, long i, bool th, int id) {
  Rng r(seed, id, i); Case c; c.hasP = true; int ord = r.upto(3); c.p = transProblem(r, th, ord); string oc = ordClass(c.p); if (r.p(30)) annotate(c.p, r); string s = pickTrans(r, oc == string("total-order") ? 0 : oc == string("parallel-chains") ? 1 : 2);
  bool it = r.p(80); if (it) s += " --iterate"; if (r.p(30)) s += " --pgb " + std::to_string(r.in(1, 5)); if (r.p(20)) s += " --pgbsteps " + std::to_string(r.in(1, 3)); if (r.p(50)) s += " --realCosts"; if (r.p(20)) s += string(" --downwardConf ") + (r.p(50) ? "lazy-cea()" : "x");
  c.cfg.push_back(s); c.ext["_fdmode"] = r.upto(3); c.ext["_fdseed"] = r.upto(1 << 30); c.ext["_fdlimit"] = th ? 40000 : 4000; c.ext["_fdcalls"] = r.in(2, 6); c.ext["_alt"] = r.p(15); c.ext["_stale"] = r.p(15); return c; }
struct P18 : Prop {
  string id() override { return "P18"; }
  string rule() override { return "A case is a generated HTN problem with one initial method, a translation configuration and a randomised exact SAS+ search in place of the external planner; non-trivial when a plan with two or more actions was printed and verified."; }
  long quickN() override { return 45000; } long thoroughN() override { return 2000000; }
  bool shrinkOk(const Case &c) override { return singleTop(c.p); }
  vector<string> requiredTags() override { return {"plan:TO", "plan:Push", "plan:Parallel Sequences", "plan:Basic PO Strips", "plan:Basic PO ADL/Conditional effects", "only-generate"}; }
  Case gen(uint64_t seed, long i, bool th) override { Case c = transCase(seed, i, th, 18); Rng r(seed, 181, i); if (r.p(10)) c.cfg[0] += " --onlyGenerate"; return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); const string &cfg = c.cfg[0]; string oc = ordClass(c.p); if ((cfg.find("--transtype to") != string::npos && oc != "total-order" && cfg.find("--force") != string::npos) || (cfg.find("parallelseq") != string::npos && oc != "parallel-chains")) { v.k = Verdict::SKIP; v.cls = "encoding-not-for-class"; return v; }
    Run r = run_trans(c.p, cfg, c); if (r.cpu) { v.tags.insert("cpu-limit"); return v; } if (r.sig) return bad(v, "crash", cfg + ": " + crashmsg(r)); if (r.out.find("Sanitizer") != string::npos || r.out.find("runtime error:") != string::npos) return bad(v, "crash", cfg + ": " + crashmsg(r));
    TransOut t = trans_out(r.out); size_t q; if ((q = r.out.find("VERIF-BADSAS")) != string::npos) return bad(v, "malformed-sas", cfg + ": " + r.out.substr(q, r.out.find('\n', q) - q)); if (r.out.find("VERIF-STALE-PLAN") != string::npos) return bad(v, "stale-plan", cfg); if (r.out.find("VERIF-REFUSED") != string::npos) return bad(v, "unexpected-command", cfg);
    if (cfg.find("--onlyGenerate") != string::npos) { SasTask s; string err; if (!sas_read(scratch() + "/out.sas", s, err)) return bad(v, "malformed-sas", cfg + ": " + err); if (r.code || !t.res.empty()) return bad(v, "only-generate", cfg + ": exit code " + std::to_string(r.code) + "\n" + r.out.substr(r.out.size() > 400 ? r.out.size() - 400 : 0)); v.tags.insert("only-generate"); return v; }
    bool real = cfg.find("--realCosts") != string::npos; if ((q = r.out.find(" metric=")) != string::npos && (r.out[q + 8] == '1') != real) return bad(v, "metric", cfg);
    bool solved = !t.res.empty() && t.res.back() == "solved", plan = r.out.find("==>\n") != string::npos;
    if (!solved) { if (plan) return bad(v, "plan-from-nowhere", cfg); for (auto &x : t.res) v.tags.insert("search:" + x); if (t.res.empty()) return bad(v, "no-search", cfg + ": " + r.out.substr(r.out.size() > 400 ? r.out.size() - 400 : 0)); return v; }
    if (r.code || !plan) return bad(v, "no-plan", cfg + ": " + crashmsg(r)); Plan pl; string err; int cst = 0; if (!parse_plan(r.out, pl, err) || !verify_plan(c.p, pl, err, &cst)) return bad(v, "invalid-plan", cfg + ": " + err + "\n" + planText(r.out.substr(r.out.find("==>\n"))));
    q = r.out.find("VERIF-COST "); long oc2 = atol(r.out.c_str() + q + 11); if (oc2 != cst) return bad(v, "operator-costs", cfg + ": the operators of the classical plan cost " + std::to_string(oc2) + ", the actions of the HTN plan " + std::to_string(cst));
    v.tags.insert("plan:" + t.used); v.nontrivial = pl.prim.size() >= 2; v.sample = cfg; return v;
  }
};
// The least bound at which an encoding has a plan: how many tasks a progression has to hold at once, as the encoding counts them.
// Basic PO Strips ends every method without a last task with an additional one; TO applies a method together with the primitive
// tasks it starts with; Parallel Sequences counts each sequence of the initial task network on its own.
static int transBound(const Problem &p, const string &enc, long cap = 4000) {
  if (enc == "Push" || enc == "Basic PO ADL/Conditional effects") return ref_min_bound(p, cap);
  if (enc == "TO") return ref_min_bound(p, cap, true); if (enc == "Parallel Sequences") return ref_min_bound(p, cap, false, true); if (enc != "Basic PO Strips") return -2;
  Problem q = p; Action nop; nop.name = "nop"; nop.cost = 0; int N = q.nA(); for (auto &m : q.met) { if (m.task >= N) m.task++; for (int &x : m.sub) if (x >= N) x++; } if (q.init >= N) q.init++; q.act.push_back(nop);
  Sem sem(q); for (size_t i = 0; i < q.met.size(); i++) { auto &m = q.met[i]; int e = m.sub.size(); bool last = e == 0; for (int x = 0; x < e && !last; x++) { bool all = true; for (int y = 0; y < e; y++) if (y != x && !sem.clo[i][y][x]) all = false; last = all; } if (!last) { m.sub.push_back(N); for (int y = 0; y < e; y++) m.ord.push_back({y, e}); } }
  return ref_min_bound(q, cap);
}
struct P19 : Prop {
  string id() override { return "P19"; }
  string rule() override { return "A case is a generated HTN problem with one initial method, a translation configuration that iterates over the progression bound, and an exact SAS+ search; non-trivial when the translation was found unsolvable at some bound or solvable after an unsolvable bound, or its optimal cost was compared."; }
  long quickN() override { return 45000; } long thoroughN() override { return 2000000; }
  bool shrinkOk(const Case &c) override { return singleTop(c.p); }
  vector<string> requiredTags() override { return {"complete:TO", "complete:Push", "complete:Parallel Sequences", "complete:Basic PO Strips", "complete:Basic PO ADL/Conditional effects", "optimal", "least-bound:TO", "least-bound:Push", "least-bound:Parallel Sequences", "least-bound:Basic PO Strips", "least-bound:Basic PO ADL/Conditional effects"}; }
  Case gen(uint64_t seed, long i, bool th) override { Case c = transCase(seed, i, th, 19); if (c.cfg[0].find("--iterate") == string::npos) c.cfg[0] += " --iterate"; c.ext["_fdlimit"] *= 2; return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); const string &cfg = c.cfg[0]; string oc = ordClass(c.p); if ((cfg.find("--transtype to") != string::npos && oc != "total-order" && cfg.find("--force") != string::npos) || (cfg.find("parallelseq") != string::npos && oc != "parallel-chains")) { v.k = Verdict::SKIP; v.cls = "encoding-not-for-class"; return v; }
    int n = ref_solve(c.p, 1, 6000); if (n == -2) { v.k = Verdict::SKIP; v.cls = "reference-undecided"; return v; } // n: nodes of a smallest decomposition tree of a solution
    Run r = run_trans(c.p, cfg, c); if (r.cpu) { v.tags.insert("cpu-limit"); return v; } if (r.sig) return bad(v, "crash", cfg + ": " + crashmsg(r)); if (r.out.find("VERIF-BADSAS") != string::npos) return bad(v, "malformed-sas", cfg);
    TransOut t = trans_out(r.out); if (t.res.empty() || t.bounds.size() < t.res.size()) return bad(v, "no-search", cfg + ": " + crashmsg(r));
    int mb = n < 0 ? -1 : transBound(c.p, t.used); if (mb < 0 || mb > n) mb = n; // the bound from which on the encoding has to have a plan
    for (size_t i = 0; i < t.res.size(); i++) { int lo = *std::min_element(t.bounds[i].begin(), t.bounds[i].end()); if (t.res[i] == "limit") { v.tags.insert("search-limit"); return v; } if (t.res[i] == "exhausted" && n >= 0 && lo >= mb) return bad(v, "solution-lost", cfg + ": the translation with bound " + std::to_string(lo) + " has no plan, but a solution with " + std::to_string(n) + " tasks in total exists, and one that fits the bound " + std::to_string(mb)); if (n >= 0 && lo == mb) v.tags.insert("least-bound:" + t.used); if (t.res[i] == "solved" && n < 0) return bad(v, "solved-but-unsolvable", cfg); if (t.res[i] == "exhausted" && (n < 0 || i)) v.nontrivial = true; if (i && t.res[i] == "solved") v.nontrivial = true; }
    size_t st = 1; size_t q = cfg.find("--pgbsteps "); if (q != string::npos) st = atoi(cfg.c_str() + q + 11); q = cfg.find("--pgb "); if (q != string::npos && t.bounds[0][0] != atoi(cfg.c_str() + q + 6)) return bad(v, "first-bound", cfg); for (size_t i = 1; i < t.bounds.size(); i++) for (size_t j = 0; j < t.bounds[i].size(); j++) if (t.bounds[i][j] != t.bounds[i - 1][j] + (int)st) return bad(v, "bound-steps", cfg);
    if (t.res.back() == "solved") { v.tags.insert("complete:" + t.used); int lo = *std::min_element(t.bounds[t.res.size() - 1].begin(), t.bounds[t.res.size() - 1].end());
      if (c.ext.at("_fdmode") == 2 && cfg.find("--realCosts") != string::npos) { Metric m{0}; int best = ref_solve(c.p, 0, 6000); size_t z = r.out.find("VERIF-COST "); long x = atol(r.out.c_str() + z + 11); if (best >= 0 && x < best) return bad(v, "cheaper-than-optimal", cfg); if (best >= 0 && x > best && !is_recursive(c.p)) { // a cheapest solution fits as well when every decomposition tree does
          Problem z2 = c.p; vector<long> sz(z2.nT(), 0); std::function<long(int)> S = [&](int k) -> long { if (k < z2.nA()) return 1; if (sz[k]) return sz[k]; long b = 0; for (auto &mm : z2.met) if (mm.task == k) { long s = 1; for (int y : mm.sub) s += S(y); b = std::max(b, s); } return sz[k] = b; }; if (S(c.p.init) <= lo) return bad(v, "not-optimal", cfg + ": cheapest plan of the translation costs " + std::to_string(x) + ", the optimum is " + std::to_string(best)); } v.tags.insert("optimal"); v.nontrivial = true; } }
    v.sample = cfg; return v;
  }
};
