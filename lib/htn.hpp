// Grounded HTN problems: representation, SAS I/O, contract normalisation, random generation,
// reference semantics (independent of the engine) and plan verification.
#pragma once
#include <algorithm>
#include <array>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace ref {
using std::string; using std::vector; using std::pair; using std::set; using std::map;

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed, uint64_t a = 0, uint64_t b = 0) { uint64_t x = seed * 0x9E3779B97F4A7C15ull + a * 0xD1B54A32D192ED03ull + b * 0x8CB92BA72F3D8DD7ull + 77; s[0] = mix(x); s[1] = mix(x); }
  uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
  int upto(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }       // [0,n)
  int in(int a, int b) { return a + upto(b - a + 1); }                      // [a,b]
  bool p(int pct) { return upto(100) < pct; }
  template <class T> const T &pick(const vector<T> &v) { return v[upto(v.size())]; }
  template <class T> void shuffle(vector<T> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[upto(i)]); }
};

struct Action { string name; int cost = 1; vector<int> pre, add, del; };
struct Method { string name; int task = 0; vector<int> sub; vector<pair<int,int>> ord; };
struct Problem {
  vector<string> facts;
  struct Var { int first, last; string name; };
  vector<Var> vars;
  vector<vector<int>> strict, mutex, inv;
  vector<Action> act;
  vector<int> s0, goal;
  vector<string> abs;              // abstract task i has id act.size()+i
  int init = 0;                    // task id
  vector<Method> met;
  int nF() const { return facts.size(); }
  int nA() const { return act.size(); }
  int nT() const { return act.size() + abs.size(); }
  const string &tname(int t) const { return t < nA() ? act[t].name : abs[t - nA()]; }
};

inline void wl(std::ostream &o, const vector<int> &v) { for (int x : v) o << (x < 0 ? x - 1 : x) << ' '; o << "-1\n"; } // "not f" is -f-1 here and -f-2 in the file
inline string to_sas(const Problem &p) {
  std::ostringstream o;
  o << ";; #state features\n" << p.nF() << "\n";
  for (auto &f : p.facts) o << f << "\n";
  o << "\n;; Mutex Groups\n" << p.vars.size() << "\n";
  for (auto &v : p.vars) o << v.first << ' ' << v.last << ' ' << v.name << "\n";
  auto sec = [&](const char *c, const vector<vector<int>> &x) { o << "\n;; " << c << "\n" << x.size() << "\n"; for (auto &l : x) wl(o, l); };
  sec("further strict Mutex Groups", p.strict); sec("further non strict Mutex Groups", p.mutex); sec("known invariants", p.inv);
  o << "\n;; Actions\n" << p.nA() << "\n";
  for (auto &a : p.act) {
    o << a.cost << "\n"; wl(o, a.pre);
    for (auto *l : {&a.add, &a.del}) { for (int f : *l) o << "0 " << f << "  "; o << "-1\n"; }
  }
  o << "\n;; initial state\n"; wl(o, p.s0);
  o << "\n;; goal\n"; wl(o, p.goal);
  o << "\n;; tasks (primitive and abstract)\n" << p.nT() << "\n";
  for (auto &a : p.act) o << "0 " << a.name << "\n";
  for (auto &a : p.abs) o << "1 " << a << "\n";
  o << "\n;; initial abstract task\n" << p.init << "\n";
  o << "\n;; methods\n" << p.met.size() << "\n";
  for (auto &m : p.met) { o << m.name << "\n" << m.task << "\n"; wl(o, m.sub); for (auto &x : m.ord) o << x.first << ' ' << x.second << ' '; o << "-1\n"; }
  return o.str();
}
inline bool from_sas(std::istream &in, Problem &p) {
  p = Problem(); string l; auto L = [&]() { return bool(std::getline(in, l)); };
  auto ints = [&]() { vector<int> v; std::istringstream s(l); int x; while (s >> x && x != -1) v.push_back(x); return v; };
  auto num = [&]() { L(); return atoi(l.c_str()); };
  if (!L()) return false;
  int n = num(); for (int i = 0; i < n; i++) { L(); p.facts.push_back(l); }
  L(); L(); n = num();
  for (int i = 0; i < n; i++) { L(); std::istringstream s(l); Problem::Var v; s >> v.first >> v.last >> v.name; p.vars.push_back(v); }
  for (auto *sec : {&p.strict, &p.mutex, &p.inv}) { L(); L(); n = num(); for (int i = 0; i < n; i++) { L(); sec->push_back({}); std::istringstream s(l); int x; while (s >> x && x != -1) sec->back().push_back(x < 0 ? x + 1 : x); } }
  L(); L(); n = num();
  for (int i = 0; i < n; i++) {
    Action a; L(); a.cost = atoi(l.c_str()); L(); a.pre = ints();
    for (auto *q : {&a.add, &a.del}) { L(); std::istringstream s(l); int c; while (s >> c && c != -1) { int f; s >> f; q->push_back(f); } }
    p.act.push_back(a);
  }
  L(); L(); L(); p.s0 = ints(); L(); L(); L(); p.goal = ints();
  L(); L(); n = num();
  for (int i = 0; i < n; i++) { L(); std::istringstream s(l); int b; string nm; s >> b >> nm; if (b) p.abs.push_back(nm); else { if (i >= p.nA()) return false; p.act[i].name = nm; } }
  L(); L(); p.init = num(); L(); L(); n = num();
  for (int i = 0; i < n; i++) { Method m; L(); m.name = l; m.task = num(); L(); m.sub = ints(); L(); auto v = ints(); for (size_t k = 0; k + 1 < v.size(); k += 2) m.ord.push_back({v[k], v[k + 1]}); p.met.push_back(m); }
  return true;
}

// ---------- structural facts ----------
inline vector<vector<char>> closure(const Method &m) {
  int n = m.sub.size(); vector<vector<char>> c(n, vector<char>(n, 0));
  for (auto &o : m.ord) c[o.first][o.second] = 1;
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (c[i][k]) for (int j = 0; j < n; j++) if (c[k][j]) c[i][j] = 1;
  return c;
}
inline bool method_total(const Method &m) {
  auto c = closure(m); int n = m.sub.size();
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (!c[i][j] && !c[j][i]) return false;
  return true;
}
inline bool method_chains(const Method &m) { // union of disjoint total-order chains
  auto c = closure(m); int n = m.sub.size();
  for (int i = 0; i < n; i++) { int s = 0, q = 0;
    for (int j = 0; j < n; j++) { auto dir = [&](int a, int b) { if (!c[a][b]) return false; for (int k = 0; k < n; k++) if (c[a][k] && c[k][b]) return false; return true; };
      s += dir(i, j); q += dir(j, i); }
    if (s > 1 || q > 1) return false; }
  return true;
}
inline bool totally_ordered(const Problem &p) { for (auto &m : p.met) if (!method_total(m)) return false; return true; }
// order of subtasks in a totally ordered method
inline vector<int> total_order(const Method &m) {
  auto c = closure(m); int n = m.sub.size(); vector<int> r(n);
  for (int i = 0; i < n; i++) { int q = 0; for (int j = 0; j < n; j++) q += c[j][i]; r[q] = i; }
  return r;
}
inline bool is_recursive(const Problem &p) {
  int n = p.nT(); vector<set<int>> e(n); for (auto &m : p.met) for (int s : m.sub) e[m.task].insert(s);
  vector<int> st(n, 0); bool rec = false;
  std::function<void(int)> d = [&](int v) { st[v] = 1; for (int w : e[v]) { if (st[w] == 1) rec = true; else if (!st[w]) d(w); } st[v] = 2; };
  for (int i = 0; i < n; i++) if (!st[i]) d(i);
  return rec;
}

// ---------- normalisation to the input contract of the planner ----------
// (every task reachable from the initial task, every abstract task has a finite decomposition,
//  no duplicate effects, SAS+ variables consistent, at least two tasks, methods non-empty)
inline void dedup(vector<int> &v) { vector<int> r; for (int x : v) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x); v = r; }
inline bool normalise(Problem &p) {
  // method orderings: in range, acyclic, non reflexive
  for (auto &m : p.met) {
    vector<pair<int,int>> keep; Method t; t.sub = m.sub;
    for (auto &o : m.ord) { if (o.first < 0 || o.second < 0 || o.first >= (int)m.sub.size() || o.second >= (int)m.sub.size() || o.first == o.second) continue;
      if (std::find(keep.begin(), keep.end(), o) != keep.end()) continue;
      t.ord = keep; auto c = closure(t); if (c[o.second][o.first]) continue; keep.push_back(o); }
    m.ord = keep;
  }
  p.met.erase(std::remove_if(p.met.begin(), p.met.end(), [&](const Method &m) { return m.sub.empty() || m.task < p.nA() || m.task >= p.nT(); }), p.met.end());
  if (p.nA() == 0 || p.init < p.nA() || p.init >= p.nT()) return false;
  // productive
  vector<char> prod(p.nT(), 0); for (int i = 0; i < p.nA(); i++) prod[i] = 1;
  for (bool ch = true; ch;) { ch = false; for (auto &m : p.met) if (!prod[m.task]) { bool ok = true; for (int s : m.sub) ok &= prod[s]; if (ok) prod[m.task] = ch = true; } }
  if (!prod[p.init]) return false;
  p.met.erase(std::remove_if(p.met.begin(), p.met.end(), [&](const Method &m) { if (!prod[m.task]) return true; for (int s : m.sub) if (!prod[s]) return true; return false; }), p.met.end());
  vector<char> rch(p.nT(), 0); vector<int> q{p.init}; rch[p.init] = 1;
  while (!q.empty()) { int t = q.back(); q.pop_back(); for (auto &m : p.met) if (m.task == t) for (int s : m.sub) if (!rch[s]) { rch[s] = 1; q.push_back(s); } }
  vector<int> id(p.nT(), -1); vector<Action> na; vector<string> nb;
  for (int i = 0; i < p.nA(); i++) if (rch[i]) { id[i] = na.size(); na.push_back(p.act[i]); }
  for (int i = p.nA(); i < p.nT(); i++) if (rch[i]) { id[i] = na.size() + nb.size(); nb.push_back(p.abs[i - p.nA()]); }
  vector<Method> nm;
  for (auto &m : p.met) if (rch[m.task]) { Method x = m; x.task = id[m.task]; for (int &s : x.sub) s = id[s]; nm.push_back(x); }
  p.init = id[p.init]; p.act = na; p.abs = nb; p.met = nm;
  for (auto &a : p.act) { dedup(a.pre); dedup(a.add); dedup(a.del); }
  dedup(p.s0); dedup(p.goal); std::sort(p.s0.begin(), p.s0.end());
  // SAS+ variables: exactly one value initially; adds leave exactly one value
  vector<int> varOf(p.nF()); for (size_t v = 0; v < p.vars.size(); v++) for (int f = p.vars[v].first; f <= p.vars[v].last; f++) varOf[f] = v;
  auto multi = [&](int v) { return p.vars[v].last > p.vars[v].first; };
  for (size_t v = 0; v < p.vars.size(); v++) if (multi(v)) {
    int c = 0; vector<int> s; for (int f : p.s0) { if (varOf[f] == (int)v) { if (c++) continue; } s.push_back(f); }
    if (!c) s.push_back(p.vars[v].first); p.s0 = s; }
  std::sort(p.s0.begin(), p.s0.end());
  for (auto &a : p.act) {
    vector<int> pv(p.vars.size(), -1), prek;
    for (int f : a.pre) { int v = varOf[f]; if (multi(v)) { if (pv[v] >= 0) continue; pv[v] = f; } prek.push_back(f); }
    a.pre = prek;
    vector<int> addk, delk; set<int> added;
    for (int f : a.add) { int v = varOf[f]; if (multi(v)) { if (added.count(v) || pv[v] == f) continue; added.insert(v); } addk.push_back(f); }
    for (int f : a.del) if (!multi(varOf[f])) delk.push_back(f);
    for (int f : addk) { int v = varOf[f]; if (!multi(v)) continue; if (pv[v] >= 0) delk.push_back(pv[v]); else for (int g = p.vars[v].first; g <= p.vars[v].last; g++) if (g != f) delk.push_back(g); }
    a.add = addk; a.del = delk;
  }
  return p.nT() >= 2 && !p.met.empty();
}

// ---------- reference semantics ----------
typedef uint64_t St; // at most 64 facts
struct Sem {
  const Problem &p; vector<St> pre, add, del; St s0 = 0, goal = 0; vector<vector<int>> methodsOf; vector<vector<vector<char>>> clo;
  explicit Sem(const Problem &q) : p(q) {
    auto m = [](const vector<int> &v) { St s = 0; for (int x : v) s |= St(1) << x; return s; };
    for (auto &a : p.act) { pre.push_back(m(a.pre)); add.push_back(m(a.add)); del.push_back(m(a.del)); }
    s0 = m(p.s0); goal = m(p.goal); methodsOf.resize(p.nT());
    for (size_t i = 0; i < p.met.size(); i++) { methodsOf[p.met[i].task].push_back(i); clo.push_back(closure(p.met[i])); }
  }
  bool app(int a, St s) const { return (pre[a] & ~s) == 0; }
  St step(int a, St s) const { return (s & ~del[a]) | add[a]; }
  bool isGoal(St s) const { return (goal & ~s) == 0; }
};

// metric: 0 action cost, 1 number of actions+decompositions, 2 action cost + decompositions
struct Metric { int kind; int a(const Problem &p, int t) const { return kind == 1 ? 1 : p.act[t].cost; } int m() const { return kind == 0 ? 0 : 1; } };

// Exact reference for totally ordered problems with few facts: least cost of taking task t from s to s'
// (least fixpoint, so recursion is handled exactly).
struct TORef {
  const Problem &p; Sem sem; Metric met; vector<map<St, map<St, int>>> best; bool ok = true; bool changed = false; long work = 0, cap;
  vector<vector<int>> order;
  TORef(const Problem &q, Metric m, long cap_ = 3000000) : p(q), sem(q), met(m), cap(cap_) { best.resize(p.nT()); for (auto &x : p.met) order.push_back(total_order(x)); }
  const map<St, int> &get(int t, St s) {
    auto it = best[t].find(s);
    if (it == best[t].end()) { changed = true; auto &r = best[t][s]; if (t < p.nA() && sem.app(t, s)) r[sem.step(t, s)] = met.a(p, t); return r; }
    return it->second;
  }
  // returns least cost or -1 when unsolvable; -2 when the budget ran out
  int solve() {
    get(p.init, sem.s0);
    do {
      changed = false;
      for (size_t mi = 0; mi < p.met.size(); mi++) {
        auto &m = p.met[mi]; vector<St> keys; for (auto &k : best[m.task]) keys.push_back(k.first);
        for (St s : keys) {
          map<St, int> cur{{s, met.m()}};
          for (int idx : order[mi]) { map<St, int> nx; for (auto &c : cur) { auto r = get(m.sub[idx], c.first); for (auto &e : r) { if (++work > cap) return -2; auto f = nx.find(e.first); int v = c.second + e.second; if (f == nx.end()) nx[e.first] = v; else if (v < f->second) f->second = v; } } cur.swap(nx); if (cur.empty()) break; }
          auto &b = best[m.task][s];
          for (auto &c : cur) { auto f = b.find(c.first); if (f == b.end()) { b[c.first] = c.second; changed = true; } else if (c.second < f->second) { f->second = c.second; changed = true; } }
        }
      }
    } while (changed);
    int r = -1; for (auto &e : best[p.init][sem.s0]) if (sem.isGoal(e.first) && (r < 0 || e.second < r)) r = e.second;
    return r;
  }
};
// Least decomposition-tree height (root at height 0, so a tree root->actions has height 1) of a solution of a TO problem; -1 none up to maxD
inline int to_min_height(const Problem &p, int maxD, long cap = 3000000) {
  Sem sem(p); vector<vector<int>> order; for (auto &x : p.met) order.push_back(total_order(x));
  map<std::tuple<int, int, St>, set<St>> memo; long work = 0; bool over = false;
  std::function<const set<St> &(int, int, St)> rec = [&](int t, int d, St s) -> const set<St> & {
    if (t < p.nA()) d = 0;
    auto k = std::make_tuple(t, d, s); auto it = memo.find(k); if (it != memo.end()) return it->second;
    set<St> r;
    if (t < p.nA()) { if (sem.app(t, s)) r.insert(sem.step(t, s)); }
    else if (d > 0) for (int mi : sem.methodsOf[t]) { set<St> cur{s}; for (int idx : order[mi]) { set<St> nx; for (St c : cur) { if (++work > cap) { over = true; break; } auto &q = rec(p.met[mi].sub[idx], d - 1, c); nx.insert(q.begin(), q.end()); } cur.swap(nx); } r.insert(cur.begin(), cur.end()); }
    return memo[k] = r;
  };
  for (int d = 1; d <= maxD; d++) { for (St s : rec(p.init, d, sem.s0)) if (sem.isGoal(s)) return d; if (over) return -2; }
  return -1;
}

// Explicit progression search over (state, task network): exact when it exhausts the space within the budget.
struct TN { vector<int> task; vector<int> h; vector<uint32_t> pred; }; // h: remaining height (used by height-bounded search)
inline void canon(const TN &t, string &key) { // canonical up to (partial) refinement; equal keys => isomorphic
  int n = t.task.size(); vector<uint64_t> col(n);
  for (int i = 0; i < n; i++) col[i] = uint64_t(t.task[i]) * 1000003u + (t.h.empty() ? 0 : t.h[i] * 7919u) + 1;
  for (int r = 0; r < 3; r++) { vector<uint64_t> c2(n);
    for (int i = 0; i < n; i++) { uint64_t a = col[i] * 0x9E3779B97F4A7C15ull, sp = 0, ss = 0; for (int j = 0; j < n; j++) { uint64_t x = col[j] * 0xBF58476D1CE4E5B9ull; x ^= x >> 29; if (t.pred[i] >> j & 1) sp += x * 3; if (t.pred[j] >> i & 1) ss += x * 5; } c2[i] = (a ^ (a >> 31)) + sp * 0x94D049BB133111EBull + (ss ^ (ss >> 27)) * 0xD6E8FEB86659FD93ull; }
    col = c2; }
  vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
  std::sort(o.begin(), o.end(), [&](int a, int b) { return std::make_pair(col[a], a) < std::make_pair(col[b], b); });
  vector<int> pos(n); for (int i = 0; i < n; i++) pos[o[i]] = i;
  key.clear();
  for (int i = 0; i < n; i++) { uint32_t pr = 0; for (int j = 0; j < n; j++) if (t.pred[o[i]] >> j & 1) pr |= 1u << pos[j]; int tk = t.task[o[i]]; key.append((char *)&tk, 4); key.append((char *)&pr, 4); if (!t.h.empty()) key.push_back(char(t.h[o[i]])); }
}
struct PORef {
  const Problem &p; Sem sem; Metric met; long cap; long nodes = 0; int maxTasks = 24; int heightBound;
  PORef(const Problem &q, Metric m, long cap_ = 20000, int hb = -1) : p(q), sem(q), met(m), cap(cap_), heightBound(hb) {}
  struct Node { int cost; St s; TN tn; };
  // least cost, -1 proven unsolvable, -2 unknown
  int solve() { Node r; r.cost = 0; r.s = sem.s0; r.tn.task = {p.init}; r.tn.pred = {0}; if (heightBound >= 0) r.tn.h = {heightBound}; return solveFrom(r); }
  int solveFrom(const Node &start) {
    auto cmp = [](const Node &a, const Node &b) { return a.cost > b.cost; };
    std::priority_queue<Node, vector<Node>, decltype(cmp)> q(cmp); std::unordered_set<string> seen; bool over = false; long overCost = LONG_MAX; // least cost of a task network that was too large to expand
    q.push(start); string key;
    while (!q.empty()) {
      Node n = q.top(); q.pop();
      canon(n.tn, key); key.append((char *)&n.s, 8);
      if (!seen.insert(key).second) continue;
      if (++nodes > cap) return -2;
      int k = n.tn.task.size();
      if (!k) { if (sem.isGoal(n.s)) return n.cost <= overCost ? n.cost : -2; continue; }
      int ab = -1; for (int i = 0; i < k; i++) if (!n.tn.pred[i] && n.tn.task[i] >= p.nA()) { ab = i; break; }
      if (ab >= 0) {
        if (heightBound >= 0 && n.tn.h[ab] == 0) continue;
        for (int mi : sem.methodsOf[n.tn.task[ab]]) { auto &m = p.met[mi]; int e = m.sub.size();
          if (k - 1 + e > maxTasks) { over = true; overCost = std::min(overCost, (long)n.cost + met.m()); continue; }
          Node c; c.cost = n.cost + met.m(); c.s = n.s; vector<int> old;
          for (int i = 0; i < k; i++) if (i != ab) { old.push_back(i); c.tn.task.push_back(n.tn.task[i]); if (heightBound >= 0) c.tn.h.push_back(n.tn.h[i]); }
          for (int i = 0; i < e; i++) { c.tn.task.push_back(m.sub[i]); if (heightBound >= 0) c.tn.h.push_back(n.tn.h[ab] - 1); }
          c.tn.pred.assign(k - 1 + e, 0);
          for (int x = 0; x < k - 1; x++) { for (int y = 0; y < k - 1; y++) if (n.tn.pred[old[x]] >> old[y] & 1) c.tn.pred[x] |= 1u << y; if (n.tn.pred[old[x]] >> ab & 1) for (int j = 0; j < e; j++) c.tn.pred[x] |= 1u << (k - 1 + j); }
          for (int i = 0; i < e; i++) for (int j = 0; j < e; j++) if (sem.clo[mi][j][i]) c.tn.pred[k - 1 + i] |= 1u << (k - 1 + j);
          q.push(c); }
      } else for (int i = 0; i < k; i++) if (!n.tn.pred[i] && sem.app(n.tn.task[i], n.s)) {
        Node c; c.cost = n.cost + met.a(p, n.tn.task[i]); c.s = sem.step(n.tn.task[i], n.s);
        for (int x = 0; x < k; x++) if (x != i) { c.tn.task.push_back(n.tn.task[x]); if (heightBound >= 0) c.tn.h.push_back(n.tn.h[x]); uint32_t pr = n.tn.pred[x]; uint32_t lo = pr & ((1u << i) - 1), hi = (pr >> (i + 1)) << i; c.tn.pred.push_back(lo | hi); }
        q.push(c); }
    }
    return over ? -2 : -1;
  }
};
// exact answer (or -2): TO fixpoint when possible, explicit search otherwise
inline int ref_solve(const Problem &p, int metric, long cap = 20000) {
  if (p.nF() > 64) return -2;
  if (totally_ordered(p)) { TORef r(p, Metric{metric}, cap * 60); return r.solve(); }
  PORef r(p, Metric{metric}, cap); return r.solve();
}
// Least number b such that some solution can be progressed with never more than b tasks in the task network; -1 no solution, -2 unknown.
// prefix: methods are totally ordered and the primitive tasks a method starts with are executed together with it, and do not count.
// chains: the tasks of each sequence of the top method are counted on their own, and the largest count is what matters.
inline int ref_min_bound(const Problem &p, long cap = 20000, bool prefix = false, bool chains = false) {
  if (p.nF() > 64) return -2;
  Sem sem(p); struct Node { int b; long ord; St s; TN tn; }; auto cmp = [](const Node &a, const Node &b) { return a.b != b.b ? a.b > b.b : a.ord < b.ord; };
  vector<int> pre(p.met.size(), 0); if (prefix) for (size_t i = 0; i < p.met.size(); i++) if (!chains || p.met[i].task != p.init) for (int j : total_order(p.met[i])) { if (p.met[i].sub[j] >= p.nA()) break; pre[i]++; }
  std::priority_queue<Node, vector<Node>, decltype(cmp)> q(cmp); std::unordered_set<string> seen; bool over = false; long nodes = 0, ord = 0; string key;
  Node r; r.b = 1; r.ord = 0; r.s = sem.s0; r.tn.task = {p.init}; r.tn.h = {0}; r.tn.pred = {0}; q.push(r);
  while (!q.empty()) {
    Node n = q.top(); q.pop(); canon(n.tn, key); key.append((char *)&n.s, 8); if (!seen.insert(key).second) continue; if (++nodes > cap) return -2;
    int k = n.tn.task.size(); if (!k) { if (sem.isGoal(n.s)) return n.b; continue; }
    for (int i = 0; i < k; i++) if (!n.tn.pred[i]) {
      if (n.tn.task[i] < p.nA()) { if (!sem.app(n.tn.task[i], n.s)) continue; Node c; c.b = n.b; c.ord = ++ord; c.s = sem.step(n.tn.task[i], n.s);
        for (int x = 0; x < k; x++) if (x != i) { c.tn.task.push_back(n.tn.task[x]); c.tn.h.push_back(n.tn.h[x]); uint32_t pr = n.tn.pred[x]; uint32_t lo = pr & ((1u << i) - 1), hi = (pr >> (i + 1)) << i; c.tn.pred.push_back(lo | hi); } q.push(c); }
      else for (int mi : sem.methodsOf[n.tn.task[i]]) { auto &m = p.met[mi]; int e = m.sub.size(); if (k - 1 + e > 20) { over = true; continue; }
        Node c; c.ord = ++ord; c.s = n.s; vector<int> old; for (int x = 0; x < k; x++) if (x != i) { old.push_back(x); c.tn.task.push_back(n.tn.task[x]); c.tn.h.push_back(n.tn.h[x]); }
        for (int j = 0; j < e; j++) { int lab = n.tn.h[i]; if (chains && n.tn.task[i] == p.init) { lab = j; for (int y = 0; y < e; y++) if (sem.clo[mi][y][j] || sem.clo[mi][j][y]) lab = std::min(lab, y); } c.tn.task.push_back(m.sub[j]); c.tn.h.push_back(lab); }
        int sz = 0; for (int y : c.tn.h) sz = std::max(sz, !chains ? (int)c.tn.h.size() : (int)std::count(c.tn.h.begin(), c.tn.h.end(), y) - (chains && y == n.tn.h[i] && n.tn.task[i] != p.init ? pre[mi] : 0)); if (!chains) sz -= pre[mi]; c.b = std::max(n.b, sz);
        c.tn.pred.assign(k - 1 + e, 0);
        for (int x = 0; x < k - 1; x++) { for (int y = 0; y < k - 1; y++) if (n.tn.pred[old[x]] >> old[y] & 1) c.tn.pred[x] |= 1u << y; if (n.tn.pred[old[x]] >> i & 1) for (int j = 0; j < e; j++) c.tn.pred[x] |= 1u << (k - 1 + j); }
        for (int x = 0; x < e; x++) for (int y = 0; y < e; y++) if (sem.clo[mi][y][x]) c.tn.pred[k - 1 + x] |= 1u << (k - 1 + y); q.push(c); } }
  }
  return over ? -2 : -1;
}
inline int ref_min_height(const Problem &p, int maxD, long cap = 20000) {
  if (totally_ordered(p)) return to_min_height(p, maxD, cap * 60);
  for (int d = 1; d <= maxD; d++) { PORef r(p, Metric{0}, cap, d); int x = r.solve(); if (x >= 0) return d; if (x == -2) return -2; }
  return -1;
}

// Least cost of a solution whose decomposition tree has at most height d; -1 none, -2 unknown
inline int to_min_cost(const Problem &p, int maxD, long cap = 3000000) {
  Sem sem(p); vector<vector<int>> order; for (auto &x : p.met) order.push_back(total_order(x));
  map<std::tuple<int, int, St>, map<St, int>> memo; long work = 0; bool over = false;
  std::function<const map<St, int> &(int, int, St)> rec = [&](int t, int d, St s) -> const map<St, int> & {
    if (t < p.nA()) d = 0;
    auto k = std::make_tuple(t, d, s); auto it = memo.find(k); if (it != memo.end()) return it->second;
    map<St, int> r; auto put = [](map<St, int> &m, St x, int v) { auto f = m.emplace(x, v); if (!f.second && v < f.first->second) f.first->second = v; };
    if (t < p.nA()) { if (sem.app(t, s)) r[sem.step(t, s)] = p.act[t].cost; }
    else if (d > 0) for (int mi : sem.methodsOf[t]) { map<St, int> cur{{s, 0}}; for (int idx : order[mi]) { map<St, int> nx; for (auto &c : cur) { if (++work > cap) { over = true; break; } for (auto &q : rec(p.met[mi].sub[idx], d - 1, c.first)) put(nx, q.first, c.second + q.second); } cur.swap(nx); } for (auto &c : cur) put(r, c.first, c.second); }
    return memo[k] = r;
  };
  int b = -1; for (auto &x : rec(p.init, maxD, sem.s0)) if (sem.isGoal(x.first) && (b < 0 || x.second < b)) b = x.second;
  return over ? -2 : b;
}
inline int ref_min_cost_at(const Problem &p, int d, long cap = 20000) {
  if (p.nF() > 64) return -2;
  if (totally_ordered(p)) return to_min_cost(p, d, cap * 60);
  PORef r(p, Metric{0}, cap, d); return r.solve();
}

// ---------- plans ----------
struct Plan { struct Dec { int id; string task, method; vector<int> kids; }; vector<pair<int, string>> prim; int root = -1; vector<Dec> dec; };
inline bool parse_plan(const string &out, Plan &pl, string &err, size_t *pos = nullptr) {
  size_t b = out.find("==>\n", pos ? *pos : 0); if (b == string::npos) { err = "no plan block"; return false; }
  size_t e = out.find("<==", b); if (e == string::npos) { err = "unterminated plan block"; return false; }
  if (pos) *pos = e;
  std::istringstream in(out.substr(b + 4, e - b - 4)); string l; bool rootSeen = false; pl = Plan();
  while (std::getline(in, l)) {
    std::istringstream s(l); string t; s >> t;
    if (t == "root") { s >> pl.root; rootSeen = true; continue; }
    char *end; int id = strtol(t.c_str(), &end, 10); if (*end || t.empty()) { err = "malformed plan line: " + l; return false; }
    size_t ar = l.find(" -> ");
    if (!rootSeen) { string nm; std::getline(s, nm); if (!nm.empty() && nm[0] == ' ') nm = nm.substr(1); pl.prim.push_back({id, nm}); }
    else { if (ar == string::npos) { err = "malformed decomposition line: " + l; return false; }
      Plan::Dec d; d.id = id; size_t a = l.find(' '); d.task = l.substr(a + 1, ar - a - 1); std::istringstream r(l.substr(ar + 4)); r >> d.method; int k; while (r >> k) d.kids.push_back(k); if (!r.eof()) { err = "malformed decomposition line: " + l; return false; } pl.dec.push_back(d); }
  }
  if (!rootSeen) { err = "no root line"; return false; }
  return true;
}
// Names must be unique for this check (the generators guarantee it).
inline bool verify_plan(const Problem &p, const Plan &pl, string &err, int *cost = nullptr, int *height = nullptr) {
  map<string, int> tid, mid; for (int i = 0; i < p.nT(); i++) tid[p.tname(i)] = i; for (size_t i = 0; i < p.met.size(); i++) mid[p.met[i].name] = i;
  map<int, int> taskOf; map<int, const Plan::Dec *> dec; map<int, int> ppos;
  auto S = [](int x) { return std::to_string(x); };
  Sem *sem = p.nF() <= 64 ? new Sem(p) : nullptr; set<int> bigS(p.s0.begin(), p.s0.end());
  vector<char> st(p.nF(), 0); for (int f : p.s0) st[f] = 1; delete sem; int c = 0;
  for (size_t i = 0; i < pl.prim.size(); i++) {
    auto &x = pl.prim[i]; if (!tid.count(x.second)) { err = "unknown action " + x.second; return false; }
    int t = tid[x.second]; if (t >= p.nA()) { err = "abstract task in the action sequence: " + x.second; return false; }
    if (taskOf.count(x.first)) { err = "duplicate id " + S(x.first); return false; }
    taskOf[x.first] = t; ppos[x.first] = i;
    for (int f : p.act[t].pre) if (!st[f]) { err = "precondition " + p.facts[f] + " of step " + S(i) + " (" + x.second + ") does not hold"; return false; }
    for (int f : p.act[t].del) st[f] = 0; for (int f : p.act[t].add) st[f] = 1; c += p.act[t].cost;
  }
  for (int f : p.goal) if (!st[f]) { err = "goal fact " + p.facts[f] + " does not hold at the end"; return false; }
  for (auto &d : pl.dec) {
    if (!tid.count(d.task)) { err = "unknown task " + d.task; return false; }
    if (!mid.count(d.method)) { err = "unknown method " + d.method; return false; }
    if (taskOf.count(d.id)) { err = "duplicate id " + S(d.id); return false; }
    taskOf[d.id] = tid[d.task]; dec[d.id] = &d;
    if (p.met[mid[d.method]].task != tid[d.task]) { err = "method " + d.method + " does not decompose " + d.task; return false; }
  }
  if (!taskOf.count(pl.root) || taskOf[pl.root] != p.init) { err = "root is not the initial task"; return false; }
  set<int> used; map<int, set<int>> leaves; int maxh = 0;
  std::function<bool(int, int)> walk = [&](int id, int h) -> bool {
    if (!used.insert(id).second) { err = "id " + S(id) + " occurs twice in the tree"; return false; }
    if (ppos.count(id)) { leaves[id] = {ppos[id]}; maxh = std::max(maxh, h); return true; }
    if (!dec.count(id)) { err = "id " + S(id) + " is neither an action nor decomposed"; return false; }
    auto &d = *dec[id]; auto &m = p.met[mid[d.method]];
    if (d.kids.size() != m.sub.size()) { err = "decomposition " + S(id) + " has a wrong number of children"; return false; }
    set<int> all;
    for (int k : d.kids) { if (!taskOf.count(k)) { err = "child " + S(k) + " undefined"; return false; } if (!walk(k, h + 1)) return false; all.insert(leaves[k].begin(), leaves[k].end()); }
    leaves[id] = all;
    // bijection kids -> subtasks respecting tasks and orderings
    int n = m.sub.size(); auto cl = closure(m); vector<int> as(n, -1); vector<char> us(n, 0);
    auto before = [&](int a, int b) { auto &x = leaves[d.kids[a]]; auto &y = leaves[d.kids[b]]; return x.empty() || y.empty() || *x.rbegin() < *y.begin(); };
    std::function<bool(int)> bij = [&](int i) -> bool {
      if (i == n) return true;
      for (int k = 0; k < n; k++) if (!us[k] && taskOf[d.kids[k]] == m.sub[i]) { bool ok = true;
        for (int j = 0; j < i && ok; j++) { if (cl[j][i] && !before(as[j], k)) ok = false; if (cl[i][j] && !before(k, as[j])) ok = false; }
        if (!ok) continue; us[k] = 1; as[i] = k; if (bij(i + 1)) return true; us[k] = 0; as[i] = -1; }
      return false; };
    if (!bij(0)) { err = "children of decomposition " + S(id) + " (" + d.method + ") do not instantiate the method (tasks or ordering)"; return false; }
    return true; };
  if (!walk(pl.root, 0)) return false;
  if (used.size() != taskOf.size()) { err = "the plan contains ids outside the decomposition tree"; return false; }
  if (cost) *cost = c; if (height) *height = maxh;
  return true;
}

// ---------- generation ----------
enum Ord { O_TO, O_CHAIN, O_PO };
struct GenOpt {
  Ord ord = O_TO; int rec = 0;               // 0 acyclic, 1 tail/linear recursion, 2 arbitrary recursion
  int minF = 1, maxF = 6; bool sasVars = true; int overlapP = 10; int minA = 1, maxA = 6; int minAbs = 1, maxAbs = 4; int maxMeth = 3, maxSub = 3;
  int costMode = -1;                         // -1 random, 0 unit, 1 zero allowed small, 2 large
  bool multiTop = false;                     // several methods for / recursion through the initial task
  int guide = 60;                            // % of problems whose actions are made executable along a random decomposition
  int pad = 0;                               // number of extra actions hanging off an extra method (pushes ids up)
  int maxLen = 40;                           // bound on the guiding decomposition
  int tokens = 0;                            // % of problems whose actions move tokens between facts (natural mutex groups)
  int twin = 0;                              // % of methods that get sibling methods with the same subtasks but rewired orderings
};
inline Problem generate(Rng &r, const GenOpt &o) {
  for (int attempt = 0;; attempt++) {
    Problem p; int nF = r.in(o.minF, o.maxF);
    for (int i = 0; i < nF;) { int k = 1; if (o.sasVars && r.p(35)) k = std::min(nF - i, r.in(2, 4)); p.vars.push_back({i, i + k - 1, "var" + std::to_string(p.vars.size())}); for (int j = 0; j < k; j++) p.facts.push_back("+f" + std::to_string(i + j) + "[]"); i += k; }
    vector<int> varOf(nF); for (size_t v = 0; v < p.vars.size(); v++) for (int f = p.vars[v].first; f <= p.vars[v].last; f++) varOf[f] = v;
    for (auto &v : p.vars) { if (v.last > v.first) p.s0.push_back(r.in(v.first, v.last)); else if (r.p(50)) p.s0.push_back(v.first); }
    int nA = r.in(o.minA, o.maxA), nB = r.in(o.minAbs, o.maxAbs);
    int cm = o.costMode >= 0 ? o.costMode : r.upto(3); int overlap = r.p(o.overlapP) ? 40 : 0; int density = r.in(5, 45); int effless = r.in(0, 30);
    for (int i = 0; i < nA; i++) {
      Action a; a.name = "a" + std::to_string(i) + "[]";
      a.cost = cm == 0 ? 1 : cm == 1 ? r.in(0, 4) : r.in(0, 60);
      for (auto &v : p.vars) if (r.p(density)) a.pre.push_back(r.in(v.first, v.last));
      if (!r.p(effless)) for (int k = r.in(1, 3); k--;) { int f = r.upto(nF); (r.p(60) ? a.add : a.del).push_back(f); }
      for (int f : vector<int>(a.add)) if (overlap && r.p(overlap)) a.del.push_back(f); // an effect that is both added and deleted: adding wins
      vector<int> nd; for (int x : a.del) if (overlap || std::find(a.add.begin(), a.add.end(), x) == a.add.end()) nd.push_back(x);
      a.del = nd; p.act.push_back(a);
    }
    if (o.tokens && nF >= 3 && r.p(o.tokens)) {
      vector<vector<int>> grp; vector<int> fr; for (auto &v : p.vars) if (v.first == v.last) fr.push_back(v.first); r.shuffle(fr);
      while (fr.size() >= 2 && r.p(85)) { vector<int> g; for (int k = r.in(2, 4); k-- && !fr.empty();) { g.push_back(fr.back()); fr.pop_back(); } grp.push_back(g); }
      for (auto &g : grp) { vector<int> s; for (int f : p.s0) if (std::find(g.begin(), g.end(), f) == g.end()) s.push_back(f); if (r.p(90)) s.push_back(r.pick(g)); p.s0 = s; }
      if (!grp.empty()) for (auto &a : p.act) { if (r.p(15)) continue; int keep = r.upto(3); a.pre.resize(std::min<int>(a.pre.size(), keep));
        auto out = [&](vector<int> &l, const vector<int> &g) { vector<int> n; for (int f : l) if (std::find(g.begin(), g.end(), f) == g.end()) n.push_back(f); l = n; };
        vector<vector<int>> use = grp; r.shuffle(use); use.resize(std::min<size_t>(use.size(), r.in(1, 2)));
        for (auto &g : grp) { out(a.add, g); out(a.del, g); }
        for (auto &g : use) { out(a.pre, g); int x = r.pick(g), y = r.pick(g); a.pre.push_back(x); if (x == y) continue; if (r.p(90)) a.del.push_back(x); if (r.p(90)) a.add.push_back(y); } } }
    // abstract tasks; B0 is the initial task
    for (int i = 0; i < nB + 1; i++) p.abs.push_back(i ? "T" + std::to_string(i) + "[]" : "__top[]");
    p.init = nA; int mc = 0;
    auto addM = [&](int b, vector<int> sub, int mode) {
      Method m; m.name = "m" + std::to_string(mc++); m.task = nA + b; m.sub = sub; int n = sub.size();
      vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i; if (r.p(50)) r.shuffle(perm);
      if (mode == O_TO) { for (int i = 0; i + 1 < n; i++) m.ord.push_back({perm[i], perm[i + 1]}); if (n > 2 && r.p(25)) m.ord.push_back({perm[0], perm[n - 1]}); if (n > 1 && r.p(30)) r.shuffle(m.ord); }
      else if (mode == O_CHAIN) { for (int i = 0; i + 1 < n; i++) if (r.p(55)) m.ord.push_back({perm[i], perm[i + 1]}); r.shuffle(m.ord); }
      else { int d = r.in(0, 80); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.p(d)) m.ord.push_back({perm[i], perm[j]}); r.shuffle(m.ord); }
      p.met.push_back(m); };
    auto prim = [&]() { return r.upto(nA); };
    bool dupBias = r.p(35); int fav = prim();
    for (int b = 0; b <= nB; b++) {
      int k = b ? r.in(1, o.maxMeth) : (o.multiTop ? r.in(1, 2) : 1);
      for (int q = 0; q < k; q++) {
        int n = r.in(1, o.maxSub); if (b == 0) n = std::max(n, r.in(1, o.maxSub)); vector<int> sub;
        for (int i = 0; i < n; i++) {
          int t;
          if (r.p(b == 0 ? 25 : 60)) t = dupBias && r.p(50) ? fav : prim();
          else {
            int lo = b + 1, hi = nB; if (o.rec == 2 && q > 0 && b > 0) lo = 1; if (o.rec == 2 && b == 0 && o.multiTop && r.p(10) && q) lo = 0;
            t = lo > hi ? prim() : nA + r.in(lo, hi);
          }
          sub.push_back(t);
        }
        int mode = o.ord; if (o.ord == O_CHAIN && b) mode = O_TO; if (o.ord == O_PO && r.p(25)) mode = r.p(50) ? O_TO : O_CHAIN;
        if (o.rec == 1 && b > 0 && q > 0 && r.p(50)) { // tail recursion: rest then the recursive task last
          vector<int> s2; for (int t : sub) if (t < nA) s2.push_back(t); if (s2.empty()) s2.push_back(prim()); s2.push_back(nA + r.in(1, b)); sub = s2;
          Method m; m.name = "m" + std::to_string(mc++); m.task = nA + b; m.sub = sub; for (size_t i = 0; i + 1 < sub.size(); i++) m.ord.push_back({(int)i, (int)i + 1}); p.met.push_back(m);
        } else addM(b, sub, mode);
      }
    }
    if (o.twin) { // siblings: same multiset of subtasks, orderings rewired among equal tasks / permuted
      size_t n0 = p.met.size();
      for (size_t i = 0; i < n0; i++) { if (p.met[i].sub.size() < 2 || !r.p(o.twin)) continue;
        if (p.met[i].task == p.init && !o.multiTop) continue;
        { Method &m = p.met[i]; int n = m.sub.size(); for (int k = r.in(1, 2); k--;) { int a = r.upto(n), b = r.upto(n); if (m.sub[a] < nA && m.sub[b] < nA) m.sub[a] = m.sub[b]; } }
        for (int k = r.in(1, 2); k--;) { Method m = p.met[i]; m.name = "m" + std::to_string(mc++); int n = m.sub.size();
          if (method_total(m)) { r.shuffle(m.sub); }
          else for (auto &q : m.ord) for (int *e : {&q.first, &q.second}) if (r.p(50)) { vector<int> c; for (int x = 0; x < n; x++) if (m.sub[x] == m.sub[*e]) c.push_back(x); *e = r.pick(c); }
          if (o.ord == O_PO && r.p(20)) m.ord.clear();
          if (r.p(50)) { vector<int> pm(n); for (int x = 0; x < n; x++) pm[x] = x; r.shuffle(pm); Method z = m; for (int x = 0; x < n; x++) z.sub[pm[x]] = m.sub[x]; for (auto &q : z.ord) q = {pm[q.first], pm[q.second]}; m = z; }
          p.met.push_back(m); } }
      if (o.ord == O_TO) for (auto &m : p.met) if (!method_total(m)) { m.ord.clear(); for (size_t j = 0; j + 1 < m.sub.size(); j++) m.ord.push_back({(int)j, (int)j + 1}); }
    }
    if (o.pad) { // an additional top-level alternative far away in id space
      vector<Action> pads; Problem q = p; int old = nA; nA += o.pad; vector<Action> na;
      bool front = r.p(70);
      for (int i = 0; i < o.pad; i++) { Action a; a.name = "pad" + std::to_string(i) + "[]"; a.cost = 1; a.pre.push_back(r.upto(nF)); pads.push_back(a); }
      auto mp = [&](int t) { return t < old ? (front ? t + o.pad : t) : t + o.pad; };
      if (front) { na = pads; na.insert(na.end(), p.act.begin(), p.act.end()); } else { na = p.act; na.insert(na.end(), pads.begin(), pads.end()); }
      p.act = na; p.init = mp(p.init); for (auto &m : p.met) { m.task = mp(m.task); for (int &s : m.sub) s = mp(s); }
      int pb = front ? 0 : old; int tgt = nA + r.in(1, nB);
      for (int i = 0; i < o.pad; i += 3) { Method m; m.name = "m" + std::to_string(mc++); m.task = tgt; for (int j = i; j < std::min(i + 3, o.pad); j++) m.sub.push_back(pb + j); for (size_t j = 0; j + 1 < m.sub.size(); j++) m.ord.push_back({(int)j, (int)j + 1}); p.met.push_back(m); }
    }
    if (r.p(55)) for (auto &v : p.vars) if (r.p(30)) p.goal.push_back(r.in(v.first, v.last));
    if (!normalise(p)) continue;
    // guidance: pick a random decomposition, linearise it, and repair preconditions along it
    if (r.p(o.guide)) {
      Sem sem(p); vector<int> seq; bool ok = true;
      // shortest productive method per task to stop recursion
      vector<int> md(p.nT(), 1000); vector<int> mm(p.nT(), -1); for (int i = 0; i < p.nA(); i++) md[i] = 0;
      for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < p.met.size(); i++) { int x = 0; for (int s : p.met[i].sub) x = std::max(x, md[s]); if (x + 1 < md[p.met[i].task]) { md[p.met[i].task] = x + 1; mm[p.met[i].task] = i; ch = true; } } }
      vector<pair<int, int>> tn{{p.init, 0}}; vector<vector<int>> prd{{}}; // simple: expand in place, keep a linear extension
      std::function<void(int, int)> ex = [&](int t, int d) {
        if (!ok) return; if (t < p.nA()) { seq.push_back(t); if ((int)seq.size() > o.maxLen) ok = false; return; }
        int mi = d > 5 ? mm[t] : r.pick(sem.methodsOf[t]); auto &m = p.met[mi]; auto &c = sem.clo[mi]; int n = m.sub.size(); vector<char> done(n, 0);
        for (int k = 0; k < n; k++) { vector<int> cand; for (int i = 0; i < n; i++) if (!done[i]) { bool f = true; for (int j = 0; j < n; j++) if (c[j][i] && !done[j]) f = false; if (f) cand.push_back(i); } int i = r.pick(cand); done[i] = 1; ex(m.sub[i], d + 1); } };
      ex(p.init, 0);
      if (ok) { St s = sem.s0; for (int a : seq) { auto &A = p.act[a]; vector<int> np; for (int f : A.pre) if (s >> f & 1) np.push_back(f); if (np.size() != A.pre.size()) { A.pre = np; }
          St ad = 0, de = 0; for (int f : A.add) ad |= St(1) << f; for (int f : A.del) de |= St(1) << f; s = (s & ~de) | ad; }
        vector<int> g; for (int f : p.goal) if (s >> f & 1) g.push_back(f); if (r.p(70)) p.goal = g; }
      if (!normalise(p)) continue;
    }
    return p;
  }
}
// ---------- mutex groups and invariants ----------
// all states any sequence of actions can lead to (false when there are more than cap)
inline bool all_states(const Problem &p, vector<St> &out, size_t cap = 6000) {
  out.clear(); if (p.nF() > 64) return false; Sem s(p); std::unordered_set<St> seen{s.s0}; out.push_back(s.s0);
  for (size_t h = 0; h < out.size(); h++) for (int a = 0; a < p.nA(); a++) if (s.app(a, out[h])) { St n = s.step(a, out[h]); if (seen.insert(n).second) { if (out.size() >= cap) return false; out.push_back(n); } }
  return true;
}
inline int countIn(const vector<int> &g, St s) { int k = 0; for (int f : g) k += f >= 0 ? s >> f & 1 : !(s >> (-f - 1) & 1); return k; }
inline bool group_ok(const vector<int> &g, int kind, const vector<St> &R) { for (St s : R) { int k = countIn(g, s); if (kind == 0 ? k != 1 : kind == 1 ? k > 1 : k < 1) return false; } return true; } // 0 strict, 1 mutex, 2 clause
// drop the groups that do not hold (any more)
inline void revalidate(Problem &p) {
  if (p.strict.empty() && p.mutex.empty() && p.inv.empty()) return; vector<St> R; bool ok = all_states(p, R);
  int k = 0; for (auto *L : {&p.strict, &p.mutex, &p.inv}) { vector<vector<int>> n; if (ok) for (auto &g : *L) { bool in = true; for (int f : g) in &= (f >= 0 ? f : -f - 1) < p.nF(); if (in && group_ok(g, k, R)) n.push_back(g); } *L = n; k++; }
}
// add groups that hold in every reachable state
inline void annotate(Problem &p, Rng &r) {
  vector<St> R; if (!all_states(p, R)) return; int nF = p.nF(); if (nF < 2) return;
  auto dup = [](const vector<vector<int>> &L, vector<int> g) { std::sort(g.begin(), g.end()); for (auto x : L) { std::sort(x.begin(), x.end()); if (x == g) return true; } return false; };
  int tries = r.in(4, 60);
  while (tries--) {
    int kind = r.upto(3); auto &L = kind == 0 ? p.strict : kind == 1 ? p.mutex : p.inv; if (L.size() >= 6) continue; vector<int> g; int n = kind == 2 ? (r.p(70) ? 2 : r.in(1, 3)) : r.in(2, 5); vector<int> perm(nF); for (int i = 0; i < nF; i++) perm[i] = i; r.shuffle(perm);
    for (int f : perm) { if ((int)g.size() >= n) break; int l = kind == 2 && r.p(50) ? -f - 1 : f; g.push_back(l); if (kind < 2 && !group_ok(g, 1, R)) g.pop_back(); } // grow greedily
    if ((kind < 2 && g.size() < 2) || !group_ok(g, kind, R) || dup(L, g)) { if (kind == 0 && g.size() >= 2 && r.p(50) && !dup(p.mutex, g) && p.mutex.size() < 6) p.mutex.push_back(g); continue; }
    L.push_back(g);
  }
}
// one-step structural reductions, most drastic first
inline void reductions(const Problem &p, const std::function<bool(const Problem &)> &tryit) {
  auto go = [&](Problem q) -> bool { if (!normalise(q)) return false; revalidate(q); return tryit(q); };
  for (int k = 0; k < 3; k++) { auto lst = [&](Problem &q) -> vector<vector<int>> & { return k == 0 ? q.strict : k == 1 ? q.mutex : q.inv; }; Problem z = p; for (size_t i = 0; i < lst(z).size(); i++) { Problem q = p; lst(q).erase(lst(q).begin() + i); if (go(q)) return; } }
  for (size_t i = 0; i < p.met.size(); i++) { Problem q = p; q.met.erase(q.met.begin() + i); if (go(q)) return; }
  for (size_t i = 0; i < p.met.size(); i++) for (size_t j = 0; j < p.met[i].sub.size(); j++) {
    if (p.met[i].sub.size() < 2) continue; Problem q = p; auto &m = q.met[i]; auto c = closure(m); m.sub.erase(m.sub.begin() + j); m.ord.clear();
    int n = p.met[i].sub.size(); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (c[a][b] && a != (int)j && b != (int)j) m.ord.push_back({a - (a > (int)j), b - (b > (int)j)});
    if (go(q)) return; }
  // inline a single-method abstract task's only-subtask
  for (size_t i = 0; i < p.met.size(); i++) for (size_t j = 0; j < p.met[i].sub.size(); j++) { int t = p.met[i].sub[j]; if (t < p.nA()) continue;
    for (auto &m2 : p.met) if (m2.task == t && m2.sub.size() == 1) { Problem q = p; q.met[i].sub[j] = m2.sub[0]; if (q.met[i].sub[j] != t && go(q)) return; } }
  for (size_t i = 0; i < p.act.size(); i++) {
    for (size_t j = 0; j < p.act[i].pre.size(); j++) { Problem q = p; q.act[i].pre.erase(q.act[i].pre.begin() + j); if (go(q)) return; }
    for (size_t j = 0; j < p.act[i].add.size(); j++) { Problem q = p; q.act[i].add.erase(q.act[i].add.begin() + j); if (go(q)) return; }
    for (size_t j = 0; j < p.act[i].del.size(); j++) { Problem q = p; int f = q.act[i].del[j]; bool multi = false; for (auto &v : p.vars) if (v.first <= f && f <= v.last && v.last > v.first) multi = true; if (multi) continue; q.act[i].del.erase(q.act[i].del.begin() + j); if (go(q)) return; }
    if (p.act[i].cost > 1) { Problem q = p; q.act[i].cost = 1; if (go(q)) return; q.act[i].cost = p.act[i].cost / 2; if (go(q)) return; q.act[i].cost = p.act[i].cost - 1; if (go(q)) return; }
    if (p.act[i].cost == 1) { Problem q = p; q.act[i].cost = 0; if (go(q)) return; }
  }
  for (size_t j = 0; j < p.goal.size(); j++) { Problem q = p; q.goal.erase(q.goal.begin() + j); if (go(q)) return; }
  for (size_t j = 0; j < p.s0.size(); j++) { Problem q = p; int f = q.s0[j]; bool multi = false; for (auto &v : p.vars) if (v.first <= f && f <= v.last && v.last > v.first) multi = true; if (multi) continue; q.s0.erase(q.s0.begin() + j); if (go(q)) return; }
  for (size_t i = 0; i < p.met.size(); i++) for (size_t j = 0; j < p.met[i].ord.size(); j++) { Problem q = p; q.met[i].ord.erase(q.met[i].ord.begin() + j); if (totally_ordered(p) && !totally_ordered(q)) continue; if (go(q)) return; }
  // drop an unused fact (whole variable)
  for (size_t v = 0; v < p.vars.size() && p.vars.size() > 1; v++) {
    int a = p.vars[v].first, b = p.vars[v].last, n = b - a + 1; Problem q = p;
    auto fx = [&](vector<int> &l) { vector<int> r; for (int f : l) if (f < a) r.push_back(f); else if (f > b) r.push_back(f - n); l = r; };
    for (auto &x : q.act) { fx(x.pre); fx(x.add); fx(x.del); } fx(q.s0); fx(q.goal);
    q.strict.clear(); q.mutex.clear(); q.inv.clear();
    q.facts.erase(q.facts.begin() + a, q.facts.begin() + b + 1); q.vars.erase(q.vars.begin() + v); for (size_t w = v; w < q.vars.size(); w++) { q.vars[w].first -= n; q.vars[w].last -= n; }
    if (go(q)) return; }
}
// Partially ordered problems whose task has several methods with the same subtasks and almost the same orderings:
// duplicate detection has to tell the resulting networks apart.
inline Problem isoTrap(Rng &r, bool guided = true) {
  for (;;) {
    Problem p; int nF = r.in(2, 6); for (int i = 0; i < nF; i++) { p.vars.push_back({i, i, "var" + std::to_string(i)}); p.facts.push_back("+f" + std::to_string(i) + "[]"); if (r.p(50)) p.s0.push_back(i); }
    int nA = r.in(3, 5);
    for (int i = 0; i < nA; i++) { Action a; a.name = "a" + std::to_string(i) + "[]"; a.cost = r.upto(4); for (int f = 0; f < nF; f++) { if (r.p(30)) a.pre.push_back(f); if (r.p(30)) (r.p(50) ? a.add : a.del).push_back(f); } if (a.add.empty() && a.del.empty()) a.del.push_back(r.upto(nF)); p.act.push_back(a); }
    bool nest = r.p(40); p.abs = {"__top[]", "T1[]"}; if (nest) p.abs.push_back("T2[]"); p.init = nA; int top = nA, T1 = nA + 1, T2 = nA + 2, mc = 0;
    { Method m; m.name = "m" + std::to_string(mc++); m.task = top; m.sub = {T1}; if (r.p(30)) { m.sub.push_back(r.upto(nA)); if (r.p(50)) m.ord.push_back({0, 1}); } p.met.push_back(m); }
    if (nest) for (int k = r.in(1, 2); k--;) { Method m; m.name = "m" + std::to_string(mc++); m.task = T2; int n = r.in(1, 2); for (int i = 0; i < n; i++) m.sub.push_back(r.upto(nA)); if (n == 2 && r.p(50)) m.ord.push_back({0, 1}); p.met.push_back(m); }
    Method b; b.task = T1; int n = r.in(4, 7); int u = r.in(2, 4); for (int i = 0; i < n; i++) b.sub.push_back(nest && r.p(15) ? T2 : r.upto(std::min(u, nA)));
    int shape = r.upto(3); // bipartite, layered, random dag
    int half = r.in(1, n - 1);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { bool e = shape == 0 ? (i < half && j >= half && r.p(50)) : shape == 1 ? (j - i <= 2 && r.p(50)) : r.p(30); if (e) b.ord.push_back({i, j}); }
    int k = r.in(2, 4);
    for (int q = 0; q < k; q++) { Method m = b; m.name = "m" + std::to_string(mc++); if (q) for (auto &o : m.ord) for (int *e : {&o.first, &o.second}) if (r.p(35)) { vector<int> c; for (int x = 0; x < n; x++) if (m.sub[x] == m.sub[*e]) c.push_back(x); *e = r.pick(c); } p.met.push_back(m); }
    if (r.p(40)) p.goal.push_back(r.upto(nF));
    if (!normalise(p)) continue;
    if (guided && r.p(80)) { // make one linearisation of the last method executable
      Sem sem(p); vector<int> c; for (size_t i = 0; i < p.met.size(); i++) if (p.met[i].sub.size() >= 4) c.push_back(i); if (c.empty()) continue; int mi = c.back(); auto &m = p.met[mi]; auto &cl = sem.clo[mi]; int nn = m.sub.size(); vector<char> done(nn, 0); St s = sem.s0; vector<St> seen(p.nA(), ~St(0));
      vector<int> seq; for (int x = 0; x < nn; x++) { vector<int> cand; for (int i = 0; i < nn; i++) if (!done[i]) { bool f = true; for (int j = 0; j < nn; j++) if (cl[j][i] && !done[j]) f = false; if (f) cand.push_back(i); } int i = r.pick(cand); done[i] = 1; if (m.sub[i] < p.nA()) seq.push_back(m.sub[i]); }
      for (int a : seq) { seen[a] &= s; s = sem.step(a, s); }
      // precondition: as strong as this linearisation permits
      for (int a = 0; a < p.nA(); a++) if (seen[a] != ~St(0)) { vector<int> np; for (int f : p.act[a].pre) if (seen[a] >> f & 1) np.push_back(f); for (int f = 0; f < p.nF(); f++) if (seen[a] >> f & 1 && r.p(35)) np.push_back(f); p.act[a].pre = np; }
      vector<int> g; for (int f : p.goal) if (s >> f & 1) g.push_back(f); p.goal = g; if (!normalise(p)) continue; }
    return p;
  }
}
} // namespace ref
namespace ref {
// Semantics-preserving inflation: dummy facts, dummy actions (never executable: they need a fact that is never
// true), dummy methods, spread over the id space.  Verdicts and optimal costs of the result equal those of p.
inline Problem inflate(const Problem &p, uint64_t seed, int dF, int dA) {
  if (dF <= 0 && dA <= 0) return p;
  Rng r(seed, 991); Problem q = p;
  dF = std::max(dF, dA > 0 ? 1 : 0);
  { // facts: insert dF single-fact variables between existing variables
    vector<Problem::Var> nv; vector<string> nf; vector<int> mp(p.nF()); vector<int> where(p.vars.size() + 1, 0);
    bool front = r.p(40); for (int i = 0; i < dF; i++) where[front ? 0 : r.upto(where.size())]++;
    vector<int> dummies; int dn = 0;
    for (size_t v = 0; v <= p.vars.size(); v++) {
      for (int i = 0; i < where[v]; i++) { int f = nf.size(); nf.push_back("+dummy" + std::to_string(dn) + "[]"); nv.push_back({f, f, "dvar" + std::to_string(dn)}); dn++; dummies.push_back(f); }
      if (v < p.vars.size()) { int a = nf.size(); for (int f = p.vars[v].first; f <= p.vars[v].last; f++) { mp[f] = nf.size(); nf.push_back(p.facts[f]); } nv.push_back({a, (int)nf.size() - 1, p.vars[v].name}); }
    }
    auto M = [&](vector<int> &l) { for (int &f : l) f = mp[f]; };
    for (auto &a : q.act) { M(a.pre); M(a.add); M(a.del); } M(q.s0); M(q.goal);
    auto ML = [&](vector<vector<int>> &L) { for (auto &l : L) for (int &f : l) f = f >= 0 ? mp[f] : -mp[-f - 1] - 1; };
    ML(q.strict); ML(q.mutex); ML(q.inv);
    q.facts = nf; q.vars = nv;
    int never = dummies.empty() ? -1 : r.pick(dummies);
    for (int d : dummies) if (d != never && r.p(30)) q.s0.push_back(d);
    std::sort(q.s0.begin(), q.s0.end());
    if (dA > 0) {
      int old = q.nA(), nA = old + dA; vector<int> slot(nA, 0), idm(old), did; bool fr = r.p(50);
      vector<int> order; for (int i = 0; i < nA; i++) order.push_back(i);
      if (!fr) r.shuffle(order); vector<int> dm(order.begin(), order.begin() + dA); std::sort(dm.begin(), dm.end()); for (int x : dm) slot[x] = 1;
      vector<Action> na(nA); int k = 0, d = 0;
      for (int i = 0; i < nA; i++) if (slot[i]) { Action a; a.name = "dummyact" + std::to_string(d++) + "[]"; a.cost = r.upto(3); a.pre.push_back(never); if (r.p(50) && !dummies.empty()) { int f = r.pick(dummies); if (f != never) a.add.push_back(f); } na[i] = a; did.push_back(i); } else { idm[k] = i; na[i] = q.act[k++]; }
      auto mt = [&](int t) { return t < old ? idm[t] : t + dA; };
      q.act = na; q.init = mt(q.init); for (auto &m : q.met) { m.task = mt(m.task); for (int &s : m.sub) s = mt(s); }
      vector<int> abs; for (auto &m : q.met) if (m.task != q.init) abs.push_back(m.task);
      if (abs.empty()) return inflate(p, seed, dF, 0);
      int mc = 0; int tgt = r.pick(abs);
      for (size_t i = 0; i < did.size();) { Method m; m.name = "dm" + std::to_string(mc++); m.task = tgt; int n = r.in(1, 4); for (int j = 0; j < n && i < did.size(); j++) m.sub.push_back(did[i++]); for (size_t j = 0; j + 1 < m.sub.size(); j++) m.ord.push_back({(int)j, (int)j + 1}); q.met.insert(q.met.begin() + r.upto(q.met.size() + 1), m); }
    }
  }
  return q;
}
}

namespace ref {
// Semantics-preserving rewritings used as metamorphic relations.
inline Problem permute(const Problem &p, Rng &r) {
  Problem q = p; int nv = p.vars.size(); vector<int> vo(nv); for (int i = 0; i < nv; i++) vo[i] = i; r.shuffle(vo);
  vector<int> fm(p.nF()); q.facts.assign(p.nF(), ""); q.vars.clear(); int c = 0;
  for (int v : vo) { int a = c; vector<int> in; for (int f = p.vars[v].first; f <= p.vars[v].last; f++) in.push_back(f); r.shuffle(in); for (int f : in) { fm[f] = c; q.facts[c++] = p.facts[f]; } q.vars.push_back({a, c - 1, p.vars[v].name}); }
  int nA = p.nA(), nT = p.nT(); vector<int> am(nA), bm(nT - nA), tm(nT); for (int i = 0; i < nA; i++) am[i] = i; for (int i = nA; i < nT; i++) bm[i - nA] = i; r.shuffle(am); r.shuffle(bm);
  for (int i = 0; i < nA; i++) tm[i] = am[i]; for (int i = nA; i < nT; i++) tm[i] = bm[i - nA];
  auto F = [&](vector<int> l) { for (int &f : l) f = f >= 0 ? fm[f] : -fm[-f - 1] - 1; r.shuffle(l); return l; };
  for (int i = 0; i < nA; i++) { Action a = p.act[i]; a.pre = F(a.pre); a.add = F(a.add); a.del = F(a.del); q.act[tm[i]] = a; }
  for (int i = nA; i < nT; i++) q.abs[tm[i] - nA] = p.abs[i - nA];
  q.s0 = F(p.s0); std::sort(q.s0.begin(), q.s0.end()); q.goal = F(p.goal); q.init = tm[p.init];
  for (auto *L : {&q.strict, &q.mutex, &q.inv}) for (auto &l : *L) l = F(l);
  for (auto &m : q.met) { m.task = tm[m.task]; int n = m.sub.size(); vector<int> pm(n); for (int i = 0; i < n; i++) pm[i] = i; r.shuffle(pm); Method z = m; for (int i = 0; i < n; i++) z.sub[pm[i]] = tm[m.sub[i]]; for (auto &o : z.ord) o = {pm[o.first], pm[o.second]}; r.shuffle(z.ord); m = z; }
  r.shuffle(q.met); return q;
}
inline Problem redundantOrders(const Problem &p, Rng &r) { // add implied / drop transitive orderings
  Problem q = p; for (auto &m : q.met) { auto c = closure(m); int n = m.sub.size(); bool add = r.p(60); m.ord.clear();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (c[i][j]) { bool tr = false; for (int k = 0; k < n; k++) if (c[i][k] && c[k][j]) tr = true; if (!tr || (add && r.p(60))) m.ord.push_back({i, j}); } r.shuffle(m.ord); }
  return q;
}
inline Problem wrapTasks(const Problem &p, Rng &r) { // replace occurrences of a task by a new task with a single method [task]
  Problem q = p; int k = r.in(1, 2);
  while (k--) { int t = r.upto(q.nT()); if (t == q.init) continue; int w = q.nT(); q.abs.push_back("W" + std::to_string(q.abs.size()) + "[]"); for (auto &m : q.met) for (int &s : m.sub) if (s == t && r.p(70)) s = w; Method m; m.name = "mw" + std::to_string(q.met.size()); m.task = w; m.sub = {t}; q.met.push_back(m); }
  Problem z = q; if (!normalise(z)) return p; return z;
}
inline Problem inlineTasks(const Problem &p, Rng &r) { // inline an abstract subtask that has exactly one method
  vector<pair<int, int>> c; for (size_t i = 0; i < p.met.size(); i++) for (size_t j = 0; j < p.met[i].sub.size(); j++) { int t = p.met[i].sub[j]; if (t < p.nA()) continue; int n = 0, k = -1; for (size_t x = 0; x < p.met.size(); x++) if (p.met[x].task == t) n++, k = x; if (n == 1 && k != (int)i && p.met[i].sub.size() + p.met[k].sub.size() < 8) c.push_back({i, j}); }
  if (c.empty()) return p; auto x = r.pick(c); Problem q = p; Method &m = q.met[x.first]; int j = x.second; const Method *sp = nullptr; for (auto &y : p.met) if (y.task == m.sub[j]) sp = &y;
  auto cl = closure(m); Method z; z.name = m.name; z.task = m.task; vector<vector<int>> mp(m.sub.size());
  for (size_t i = 0; i < m.sub.size(); i++) if ((int)i == j) for (int s : sp->sub) { mp[i].push_back(z.sub.size()); z.sub.push_back(s); } else { mp[i].push_back(z.sub.size()); z.sub.push_back(m.sub[i]); }
  for (size_t a = 0; a < m.sub.size(); a++) for (size_t b = 0; b < m.sub.size(); b++) if (cl[a][b]) for (int u : mp[a]) for (int v : mp[b]) z.ord.push_back({u, v});
  for (auto &o : sp->ord) z.ord.push_back({mp[j][o.first], mp[j][o.second]});
  m = z; Problem y = q; if (!normalise(y)) return p; return y;
}
inline Problem dupMethod(const Problem &p, Rng &r) { Problem q = p; vector<int> c; for (size_t i = 0; i < p.met.size(); i++) if (p.met[i].task != p.init) c.push_back(i); if (c.empty()) return p; Method m = p.met[r.pick(c)]; m.name += "dup"; q.met.insert(q.met.begin() + r.upto(q.met.size() + 1), m); return q; }
}
namespace ref {
// Many actions with long precondition lists building on each other (deep backward chaining in relaxed plans).
inline Problem heavy(Rng &r, int n) {
  Problem p; for (int i = 0; i < n; i++) { p.vars.push_back({i, i, "var" + std::to_string(i)}); p.facts.push_back("+f" + std::to_string(i) + "[]"); }
  int dens = r.in(40, 100), cm = r.upto(3);
  for (int i = 0; i < n; i++) { Action a; a.name = "a" + std::to_string(i) + "[]"; a.cost = cm == 0 ? 1 : cm == 1 ? r.in(0, 4) : r.in(0, 50); for (int j = 0; j < i; j++) if (r.p(dens)) a.pre.push_back(j); r.shuffle(a.pre); a.add.push_back(i); p.act.push_back(a); }
  p.abs = {"__top[]"}; p.init = n; Method m; m.name = "m0"; m.task = n; vector<int> ids; for (int i = 0; i < n; i++) ids.push_back(i); bool ord = r.p(50);
  if (r.p(50)) { // wrap half of them
    p.abs.push_back("T1[]"); Method k; k.name = "m1"; k.task = n + 1; int h = n / 2; for (int i = 0; i < h; i++) m.sub.push_back(i); m.sub.push_back(n + 1); for (int i = h; i < n; i++) k.sub.push_back(i); if (ord) for (size_t i = 0; i + 1 < k.sub.size(); i++) k.ord.push_back({(int)i, (int)i + 1}); p.met.push_back(k);
  } else m.sub = ids;
  if (ord) for (size_t i = 0; i + 1 < m.sub.size(); i++) m.ord.push_back({(int)i, (int)i + 1});
  p.met.push_back(m); if (r.p(50)) p.goal.push_back(n - 1); normalise(p); return p;
}
}

namespace ref {
inline bool isomorphic(const vector<int> &ta, const vector<vector<char>> &A, const vector<int> &tb, const vector<vector<char>> &B, long budget = 200000) {
  int n = ta.size(); if ((int)tb.size() != n) return false;
  auto col = [n](const vector<int> &t, const vector<vector<char>> &E) { vector<uint64_t> c(n); for (int i = 0; i < n; i++) c[i] = t[i] + 1; for (int r = 0; r < 3; r++) { vector<uint64_t> d(n); for (int i = 0; i < n; i++) { uint64_t p = 0, s = 0; for (int j = 0; j < n; j++) { uint64_t x = c[j] * 0xBF58476D1CE4E5B9ull; x ^= x >> 31; x *= 0x94D049BB133111EBull; if (E[j][i]) p += x; if (E[i][j]) s += x ^ (x >> 17); } d[i] = c[i] * 0x9E3779B97F4A7C15ull + p * 3 + s * 7; } c = d; } return c; };
  auto ca = col(ta, A), cb = col(tb, B); { auto x = ca, y = cb; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) return false; }
  vector<int> mp(n, -1); vector<char> us(n, 0);
  std::function<bool(int)> bt = [&](int i) -> bool { if (i == n) return true; if (budget-- < 0) return true; for (int j = 0; j < n; j++) if (!us[j] && ca[i] == cb[j] && ta[i] == tb[j]) { bool ok = true; for (int k = 0; k < i && ok; k++) ok = A[i][k] == B[j][mp[k]] && A[k][i] == B[mp[k]][j]; if (!ok) continue; us[j] = 1; mp[i] = j; if (bt(i + 1)) return true; us[j] = 0; } return false; };
  return bt(0);
}
}
