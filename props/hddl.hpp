// P11: the HDDL export describes the same problem. The output is parsed with an independent s-expression reader.
struct Sx { string a; vector<Sx> l; bool atom = false; };
static bool sx_parse(const string &t, vector<Sx> &out, string &err) {
  size_t i = 0; std::function<bool(vector<Sx> &, bool)> go = [&](vector<Sx> &o, bool top) { for (;;) { while (i < t.size() && isspace((unsigned char)t[i])) i++; if (i >= t.size()) { if (!top) err = "unbalanced parentheses"; return top; }
      if (t[i] == ')') { if (top) { err = "unbalanced parentheses"; return false; } i++; return true; }
      if (t[i] == '(') { i++; Sx x; if (!go(x.l, false)) return false; o.push_back(x); continue; }
      Sx x; x.atom = true; while (i < t.size() && !isspace((unsigned char)t[i]) && t[i] != '(' && t[i] != ')') x.a += t[i++]; o.push_back(x); } };
  return go(out, true);
}
static string clean(string s) { for (char &c : s) { if (strchr(",;][|!()?<>", c)) c = '_'; else if (c == '+') c = 'p'; else if (c == '-') c = 'm'; } return s[0] == '_' ? "x" + s : s; }
struct HMeth { string name, task; bool hasPre = false; vector<string> pre; vector<string> sub; vector<vector<char>> c; };
struct HAct { set<string> pre, add, del; };
struct HDom { vector<string> preds, tasks; vector<HMeth> met; map<string, HAct> act; set<string> init, goal; string top; };
static bool hd_read(const string &d, const string &pr, HDom &h, string &err) {
  vector<Sx> D, Q; if (!sx_parse(d, D, err) || !sx_parse(pr, Q, err)) return false;
  auto F = [&](const string &m) { err = m; return false; };
  if (D.size() != 1 || Q.size() != 1 || D[0].l.size() < 2 || Q[0].l.size() < 2 || D[0].l[0].a != "define" || Q[0].l[0].a != "define") return F("not one (define ...) form per file");
  // a literal list: (and (f) (not (g)) ...), a single literal, or ()
  std::function<bool(const Sx &, vector<string> &, vector<string> *)> lits = [&](const Sx &x, vector<string> &pos, vector<string> *neg) { if (x.atom) return false; if (x.l.empty()) return true; if (!x.l[0].atom) return false; if (x.l[0].a == "and") { for (size_t i = 1; i < x.l.size(); i++) if (!lits(x.l[i], pos, neg)) return false; return true; } if (x.l[0].a == "not") { vector<string> y; if (!neg || x.l.size() != 2 || !lits(x.l[1], y, nullptr) || y.size() != 1) return false; neg->push_back(y[0]); return true; } if (x.l.size() != 1) return false; pos.push_back(x.l[0].a); return true; };
  for (size_t i = 1; i < D[0].l.size(); i++) { auto &x = D[0].l[i].l; if (x.empty()) return F("empty section"); string k = x[0].a;
    map<string, const Sx *> kv; size_t b = k == ":task" || k == ":method" || k == ":action" ? 2 : x.size(); if (b == 2 && x.size() < 2) return F("short section " + k); for (size_t j = b; j < x.size(); j += 2) { if (!x[j].atom || j + 1 >= x.size()) return F("bad keyword list in " + k); if (!kv.emplace(x[j].a, &x[j + 1]).second) return F("keyword twice: " + x[j].a); }
    if (k == "domain" || k == ":requirements") continue;
    if (k == ":predicates") { for (size_t j = 1; j < x.size(); j++) { if (x[j].l.size() != 1) return F("bad predicate"); h.preds.push_back(x[j].l[0].a); } }
    else if (k == ":task") h.tasks.push_back(x[1].a);
    else if (k == ":action") { HAct a; vector<string> p, ad, de, no; for (auto &e : kv) { if (e.first == ":parameters") { if (!e.second->l.empty()) return F("parameters in a grounded action"); } else if (e.first == ":precondition") { if (!lits(*e.second, p, nullptr)) return F("bad precondition of " + x[1].a); } else if (e.first == ":effect") { if (!lits(*e.second, ad, &de)) return F("bad effect of " + x[1].a); } else return F("unknown keyword " + e.first); }
      a.pre.insert(p.begin(), p.end()); a.add.insert(ad.begin(), ad.end()); a.del.insert(de.begin(), de.end()); if (!h.act.emplace(x[1].a, a).second) return F("action defined twice: " + x[1].a); }
    else if (k == ":method") { HMeth m; m.name = x[1].a; map<string, int> ids; vector<string> tmp;
      for (auto &e : kv) { const Sx &y = *e.second; if (e.first == ":parameters") { if (!y.l.empty()) return F("parameters in a grounded method"); } else if (e.first == ":task") { if (y.l.size() != 1) return F("bad :task of " + m.name); m.task = y.l[0].a; } else if (e.first == ":precondition") { m.hasPre = true; if (!lits(y, m.pre, nullptr)) return F("bad precondition of " + m.name); }
        else if (e.first == ":subtasks" || e.first == ":ordered-subtasks") { if (y.l.empty() || y.l[0].a != "and") return F("bad subtask list in " + m.name); if (!m.sub.empty()) return F("two subtask lists in " + m.name); for (size_t j = 1; j < y.l.size(); j++) { const Sx &z = y.l[j]; if (z.l.size() == 1 && z.l[0].atom) m.sub.push_back(z.l[0].a); else if (z.l.size() == 2 && z.l[0].atom && z.l[1].l.size() == 1) { if (!ids.emplace(z.l[0].a, m.sub.size()).second) return F("subtask id twice in " + m.name); m.sub.push_back(z.l[1].l[0].a); } else return F("bad subtask in " + m.name); } }
        else if (e.first != ":ordering") return F("unknown keyword " + e.first); }
      int n = m.sub.size(); m.c.assign(n, vector<char>(n, 0)); if (kv.count(":ordered-subtasks")) for (int a = 0; a + 1 < n; a++) m.c[a][a + 1] = 1;
      if (kv.count(":ordering")) { auto &y = kv[":ordering"]->l; if (y.empty() || y[0].a != "and") return F("bad ordering in " + m.name); for (size_t j = 1; j < y.size(); j++) { auto &z = y[j].l; if (z.size() != 3 || z[1].a != "<") return F("bad ordering in " + m.name); if (!ids.count(z[0].a) || !ids.count(z[2].a)) return F("the ordering of method " + m.name + " mentions a subtask that is not declared: " + z[0].a + " < " + z[2].a); m.c[ids[z[0].a]][ids[z[2].a]] = 1; } }
      for (int q = 0; q < n; q++) for (int a = 0; a < n; a++) if (m.c[a][q]) for (int b2 = 0; b2 < n; b2++) if (m.c[q][b2]) m.c[a][b2] = 1; h.met.push_back(m); }
    else return F("unknown section " + k); }
  for (size_t i = 1; i < Q[0].l.size(); i++) { auto &x = Q[0].l[i].l; if (x.empty()) return F("empty section"); string k = x[0].a; if (k == "problem" || k == ":domain") continue;
    if (k == ":init") for (size_t j = 1; j < x.size(); j++) { if (x[j].l.size() != 1) return F("bad init"); h.init.insert(x[j].l[0].a); }
    else if (k == ":goal") { vector<string> g; if (x.size() != 2 || !lits(x[1], g, nullptr)) return F("bad goal"); h.goal.insert(g.begin(), g.end()); }
    else if (k == ":htn") { for (size_t j = 1; j + 1 < x.size(); j += 2) if (x[j].a == ":subtasks" || x[j].a == ":ordered-subtasks") { const Sx &y = x[j + 1]; vector<string> t; if (!lits(y, t, nullptr) || t.size() != 1) return F("bad initial task network"); h.top = t[0]; } }
    else return F("unknown section " + k); }
  return true;
}
static bool drop_nodes(vector<string> &t, vector<vector<char>> &c, const std::function<bool(const string &)> &f) { bool any = false; for (size_t i = 0; i < t.size();) if (f(t[i])) { any = true; t.erase(t.begin() + i); c.erase(c.begin() + i); for (auto &r : c) r.erase(r.begin() + i); } else i++; return any; }
static bool same_net(const vector<string> &a, const vector<vector<char>> &ca, const vector<string> &b, const vector<vector<char>> &cb) { map<string, int> id; auto L = [&](const vector<string> &v) { vector<int> r; for (auto &x : v) r.push_back(id.emplace(x, id.size()).first->second); return r; }; auto x = L(a), y = L(b); return isomorphic(x, ca, y, cb); }

struct P11 : Prop {
  string id() override { return "P11"; }
  string rule() override { return "A case is a generated HTN problem with compiled method preconditions, no-op tasks and special characters in names, exported with --writeInputToHDDL; non-trivial when the exported domain has a partially ordered method, a method precondition or a dropped no-op."; }
  long quickN() override { return 40000; } long thoroughN() override { return 1500000; }
  vector<string> requiredTags() override { return {"noop-inside-partial-order", "method-precondition", "two-preconditions", "precondition-not-first", "total-order-method", "partial-order-method"}; }
  Case gen(uint64_t seed, long i, bool th) override {
    Rng r(seed, 11, i); Case c; c.hasP = true; Problem p = r.p(20) ? isoTrap(r, false) : r.p(30) ? bigProblem(r, th) : generate(r, baseOpt(r, th));
    // special tasks as the grounder writes them
    int noops = r.p(60) ? r.in(1, 2) : 0, pres = r.p(60) ? r.in(1, 3) : 0, old = p.nA(), add = noops + pres;
    if (add) { for (auto &m : p.met) { if (m.task >= old) m.task += add; for (int &s : m.sub) if (s >= old) s += add; } p.init += add; vector<int> ni, pi;
      vector<Action> ex; for (int k = 0; k < noops; k++) { Action a; a.name = "__noop" + (k ? std::to_string(k) : string()) + "[]"; a.cost = 0; ni.push_back(old + ex.size()); ex.push_back(a); } for (int k = 0; k < pres; k++) { Action a; a.name = "__method_precondition_m-" + std::to_string(k) + "[x,y]"; a.cost = 0; for (int f = 0; f < p.nF(); f++) if (r.p(25)) a.pre.push_back(f); pi.push_back(old + ex.size()); ex.push_back(a); } for (auto &a : ex) p.act.push_back(a);
      for (auto &m : p.met) { int lim = 7; while (noops && r.p(45) && (int)m.sub.size() < lim) { int n = m.sub.size(); m.sub.push_back(r.pick(ni)); if (totally_ordered(p) || r.p(70)) { auto cl = closure(m); int cut = r.upto(n + 1); vector<int> ord; Method t = m; /* random linear extension prefix */ vector<char> done(n, 0); for (int x = 0; x < n; x++) { vector<int> cand; for (int a = 0; a < n; a++) if (!done[a]) { bool f = true; for (int b = 0; b < n; b++) if (cl[b][a] && !done[b]) f = false; if (f) cand.push_back(a); } int a = r.pick(cand); done[a] = 1; ord.push_back(a); } int pb = r.p(50) ? 100 : 50; for (int x = 0; x < n; x++) if (r.p(pb)) { if (x < cut) m.ord.push_back({ord[x], n}); else m.ord.push_back({n, ord[x]}); } } }
        if (pres && r.p(50)) { int n = m.sub.size(); bool first = r.p(80); m.sub.push_back(r.pick(pi)); for (int x = 0; x < n; x++) if (first || r.p(60)) m.ord.push_back({n, x}); if (r.p(10)) m.sub.push_back(r.pick(pi)); }
        if (r.p(60)) { int n = m.sub.size(); vector<int> pm(n); for (int x = 0; x < n; x++) pm[x] = x; r.shuffle(pm); Method z = m; for (int x = 0; x < n; x++) z.sub[pm[x]] = m.sub[x]; for (auto &o : z.ord) o = {pm[o.first], pm[o.second]}; m.sub = z.sub; m.ord = z.ord; } }
      normalise(p); }
    if (r.p(30)) { auto nm = [&](const string &s, int k) { static const vector<string> sfx{"[a,b]", "[l-1;x]", "[?v,<w>]", "[!]", "(q)", "|z|"}; return s.substr(0, s.find('[')) + "x" + std::to_string(k) + r.pick(sfx); }; int k = 0; for (auto &f : p.facts) f = nm(f, k++); for (auto &a : p.act) if (a.name[0] != '_') a.name = nm(a.name, k++); }
    if (r.p(30)) p = redundantOrders(p, r); c.p = p; if (r.p(30)) { maybeInflate(r, c, 100); c.p = withInfl(c); c.ext.clear(); } return c; }
  Verdict eval(const Case &c) override {
    Verdict v; const Problem &p = c.p; string f = scratch() + "/in.sas"; write_file(f, to_sas(p)); unlink((f + ".d.hddl").c_str()); unlink((f + ".p.hddl").c_str());
    Run r = run_child([&]() { call_engine("--writeInputToHDDL", f); }, 3000); if (r.killed) { v.tags.insert("cpu-limit"); return v; } if (r.cpu) return bad(v, "does-not-terminate", "still running after 3 s of processor time"); if (r.sig || r.code) return bad(v, "crash", crashmsg(r));
    auto slurp = [](const string &n) { std::ifstream i(n); std::stringstream s; s << i.rdbuf(); return s.str(); }; string d = slurp(f + ".d.hddl"), q = slurp(f + ".p.hddl"); HDom h; string err; if (!hd_read(d, q, h, err)) return bad(v, "malformed-output", err + "\n" + d.substr(0, 3000));
    auto minus = [](set<string> a, const set<string> &b) { for (auto &x : b) a.erase(x); return a; }; // adding wins over deleting
    auto names = [&](const vector<int> &l) { set<string> s; for (int x : l) s.insert(clean(p.facts[x])); return s; };
    vector<string> ef; for (auto &x : p.facts) ef.push_back(clean(x)); if (ef != h.preds) return bad(v, "predicates", "declared predicates differ from the facts");
    vector<string> et; for (auto &x : p.abs) et.push_back(clean(x)); if (et != h.tasks) return bad(v, "tasks", "declared tasks differ from the abstract tasks");
    if (h.init != names(p.s0)) return bad(v, "init", q); if (h.goal != names(p.goal)) return bad(v, "goal", q); if (h.top != clean(p.tname(p.init))) return bad(v, "initial-task", q);
    map<string, int> aid; for (int a = 0; a < p.nA(); a++) aid[clean(p.act[a].name)] = a;
    for (auto &x : h.act) { auto it = aid.find(x.first); if (it == aid.end()) return bad(v, "action", "unknown action " + x.first); auto &a = p.act[it->second]; if (x.second.pre != names(a.pre) || x.second.add != names(a.add) || minus(x.second.del, x.second.add) != minus(names(a.del), names(a.add))) return bad(v, "action", "action " + x.first + " differs\n" + d); }
    if (h.met.size() != p.met.size()) return bad(v, "methods", "number of methods differs");
    auto isNoop = [](const string &s) { return s.rfind("x__noop", 0) == 0; };
    for (size_t i = 0; i < p.met.size(); i++) { auto &m = p.met[i]; HMeth x = h.met[i]; if (x.name.rfind(clean(m.name), 0) || x.task != clean(p.tname(m.task))) return bad(v, "methods", "method " + m.name + " has another name or task: " + x.name + " / " + x.task);
      for (auto &s : x.sub) if (std::find(et.begin(), et.end(), s) == et.end() && !h.act.count(s)) return bad(v, "undeclared-subtask", "method " + x.name + " uses " + s + ", which is neither a declared task nor a defined action");
      vector<string> t; for (int s : m.sub) t.push_back(clean(p.tname(s))); auto cl = closure(m); bool total = method_total(m); v.tags.insert(total ? "total-order-method" : "partial-order-method"); if (!total) v.nontrivial = true;
      int np = 0, at = -1; for (size_t j = 0; j < t.size(); j++) if (t[j].rfind("x__method_precondition", 0) == 0) np++, at = j; if (np > 1) v.tags.insert("two-preconditions"); bool first = np == 1; if (first) for (size_t j = 0; j < t.size(); j++) if ((int)j != at && !cl[at][j]) first = false; if (np == 1 && !first) v.tags.insert("precondition-not-first"); if (first) { v.tags.insert("method-precondition"); v.nontrivial = true; }
      if (x.hasPre) { if (!first) { if (!x.pre.empty()) return bad(v, "invented-precondition", "method " + x.name); } else { set<string> have(x.pre.begin(), x.pre.end()); string nm = t[at]; bool kept = std::find(x.sub.begin(), x.sub.end(), nm) != x.sub.end(); if (have != names(p.act[m.sub[at]].pre)) return bad(v, "method-precondition", "precondition of method " + x.name + " differs\n" + d); if (!kept) { t.erase(t.begin() + at); cl.erase(cl.begin() + at); for (auto &row : cl) row.erase(row.begin() + at); } } }
      bool interesting = false; for (size_t j = 0; j < t.size(); j++) if (isNoop(t[j])) for (size_t a = 0; a < t.size(); a++) for (size_t b = 0; b < t.size(); b++) if (cl[a][j] && cl[j][b]) interesting = true; if (interesting && !total) v.tags.insert("noop-inside-partial-order");
      if (drop_nodes(t, cl, isNoop)) v.nontrivial = true; drop_nodes(x.sub, x.c, isNoop);
      for (size_t a = 0; a < x.sub.size(); a++) if (x.c[a][a]) return bad(v, "cyclic-ordering", "method " + x.name);
      if (!same_net(t, cl, x.sub, x.c)) { string s = "{"; for (auto &y : t) s += " " + y; s += " | "; for (size_t a = 0; a < t.size(); a++) for (size_t b = 0; b < t.size(); b++) if (cl[a][b]) s += std::to_string(a) + "<" + std::to_string(b) + " "; s += "} / exported {"; for (auto &y : x.sub) s += " " + y; s += " | "; for (size_t a = 0; a < x.sub.size(); a++) for (size_t b = 0; b < x.sub.size(); b++) if (x.c[a][b]) s += std::to_string(a) + "<" + std::to_string(b) + " "; return bad(v, "method-network", "subtask network of method " + x.name + " differs: " + s + "}"); } }
    return v;
  }
};
