// Boolean functions over at most NV variables as explicit truth tables.
extern "C" int cuddGarbageCollect(DdManager *unique, int clearCache);
static const int NV = 10; typedef std::bitset<1 << NV> TT;
static TT VARTT[NV]; static const TT ONE = ~TT(), ZERO = TT();
static void ttInit() { static bool done = false; if (done) return; done = true; for (int v = 0; v < NV; v++) for (int a = 0; a < 1 << NV; a++) VARTT[v][a] = a >> v & 1; }
static TT cofT(const TT &t, int v, int ph) { const TT &m = VARTT[v]; int s = 1 << v; if (ph) { TT x = t & m; return x | (x >> s); } TT x = t & ~m; return x | (x << s); }
static TT exT(TT t, const vector<int> &vs) { for (int v : vs) t = cofT(t, v, 0) | cofT(t, v, 1); return t; }
static TT unT(TT t, const vector<int> &vs) { for (int v : vs) t = cofT(t, v, 0) & cofT(t, v, 1); return t; }
static bool depT(const TT &t, int v) { return cofT(t, v, 0) != cofT(t, v, 1); }
static vector<int> supT(const TT &t) { vector<int> r; for (int v = 0; v < NV; v++) if (depT(t, v)) r.push_back(v); return r; }
static bool leqT(const TT &a, const TT &b) { return (a & ~b).none(); }
static int hamT(const TT &f, int m) { int b = 99; for (int a = 0; a < 1 << NV; a++) if (f[a]) b = std::min(b, __builtin_popcount(a ^ m)); return b; }
typedef vector<long> A; typedef vector<double> VT;
struct CM { // a manager with a pool of functions
  DdManager *dd; int n; vector<pair<DdNode *, TT>> pool; vector<pair<DdNode *, VT>> adds; vector<pair<DdNode *, TT>> zs; int zn = 0; Verdict *v; int rec = 0; bool checkDyn = true;
  [[noreturn]] void fail(const string &m) { throw m; }
  void need(bool ok, const string &m) { if (!ok) fail(m); }
  TT tt(DdNode *f) { need(f != nullptr, "null: no result"); std::unordered_map<DdNode *, TT> memo; return ttr(f, memo); }
  TT ttr(DdNode *f, std::unordered_map<DdNode *, TT> &memo) {
    DdNode *r = Cudd_Regular(f); bool c = Cudd_IsComplement(f); if (Cudd_IsConstant(r)) { need(r == Cudd_ReadOne(dd), "structure: terminal other than one in a BDD"); return c ? ZERO : ONE; }
    auto it = memo.find(r); if (it != memo.end()) return c ? ~it->second : it->second;
    unsigned ix = Cudd_NodeReadIndex(r); need(ix < NV && (int)ix < n, "structure: bad index"); DdNode *t = Cudd_T(r), *e = Cudd_E(r); need(!Cudd_IsComplement(t), "structure: complemented then-arc"); need(t != e, "structure: redundant node");
    for (DdNode *k : {t, Cudd_Regular(e)}) if (!Cudd_IsConstant(k)) need(Cudd_ReadPerm(dd, Cudd_NodeReadIndex(k)) > Cudd_ReadPerm(dd, ix), "structure: order violated");
    TT x = ttr(t, memo), y = ttr(e, memo); TT z = (VARTT[ix] & x) | (~VARTT[ix] & y); memo[r] = z; return c ? ~z : z; }
  VT va(DdNode *f) { need(f != nullptr, "null: no result"); need(!Cudd_IsComplement(f), "structure: complemented ADD"); std::unordered_map<DdNode *, VT> memo; std::function<VT(DdNode *)> g = [&](DdNode *x) -> VT { if (Cudd_IsConstant(x)) return VT(1 << 7, Cudd_V(x)); auto it = memo.find(x); if (it != memo.end()) return it->second; int ix = Cudd_NodeReadIndex(x); need(ix < n && ix < 7, "structure: bad index"); DdNode *t = Cudd_T(x), *e = Cudd_E(x); need(t != e && !Cudd_IsComplement(e), "structure: redundant or complemented node in an ADD"); for (DdNode *k : {t, e}) if (!Cudd_IsConstant(k)) need(Cudd_ReadPerm(dd, Cudd_NodeReadIndex(k)) > Cudd_ReadPerm(dd, ix), "structure: order violated"); VT a = g(t), b = g(e); for (int s = 0; s < 1 << 7; s++) if (!(s >> ix & 1)) a[s] = b[s]; memo[x] = a; return a; }; return g(f); }
  TT zt(DdNode *f) { need(f != nullptr, "null: no result"); need(!Cudd_IsComplement(f), "structure: complemented ZDD"); std::unordered_map<DdNode *, TT> memo; std::function<TT(DdNode *)> g = [&](DdNode *x) -> TT { if (Cudd_IsConstant(x)) { need(x == Cudd_ReadOne(dd) || x == Cudd_ReadZero(dd), "structure: terminal of a ZDD"); TT t; t[0] = x == Cudd_ReadOne(dd); return t; } auto it = memo.find(x); if (it != memo.end()) return it->second; int ix = Cudd_NodeReadIndex(x); need(ix < zn, "structure: bad ZDD index"); DdNode *t = Cudd_T(x), *e = Cudd_E(x); need(t != Cudd_ReadZero(dd) && !Cudd_IsComplement(e), "structure: node of a ZDD that should be suppressed"); for (DdNode *k : {t, e}) if (!Cudd_IsConstant(k)) need(Cudd_ReadPermZdd(dd, Cudd_NodeReadIndex(k)) > Cudd_ReadPermZdd(dd, ix), "structure: ZDD order violated"); return memo[x] = g(e) | (g(t) << (1 << ix)); }; return g(f); }
  void zgroups() { if (zn > n) for (int i = 0; i < n; i++) if (abs(Cudd_ReadPermZdd(dd, 2 * i) - Cudd_ReadPermZdd(dd, 2 * i + 1)) != 1) fail("group-broken: the two literals of a variable are no longer adjacent in the ZDD order"); }
  int nodes(DdNode *f) { set<DdNode *> s; std::function<void(DdNode *)> g = [&](DdNode *x) { x = Cudd_Regular(x); if (!s.insert(x).second || Cudd_IsConstant(x)) return; g(Cudd_T(x)); g(Cudd_E(x)); }; g(f); return s.size(); }
  pair<DdNode *, TT> F(long k) { if (k % 8 == 7 && k > 15) { int v = k / 16 % n; bool c = k / 8 & 1; DdNode *x = Cudd_bddIthVar(dd, v); return {Cudd_NotCond(x, c), c ? ~VARTT[v] : VARTT[v]}; } return pool[k % pool.size()]; } // mostly a stored function, sometimes a projection function
  struct Grp { vector<int> v; bool fixed; }; vector<Grp> grp; // the variable groups in force, each in the order of its variables when made (or last shuffled)
  static bool has(const vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
  static int common(const Grp &a, const Grp &b) { int k = 0; for (int x : a.v) k += has(b.v, x); return k; }
  int lo(const Grp &g) { int l = 99; for (int i : g.v) l = std::min(l, Cudd_ReadPerm(dd, i)); return l; }
  void groups() { // groups stay adjacent; the parts of a fixed group (its largest subgroups, or single variables) keep their order
    for (auto &g : grp) { int l = lo(g), h = -1; for (int i : g.v) h = std::max(h, Cudd_ReadPerm(dd, i)); if (h - l != (int)g.v.size() - 1) fail("group-broken: variables of a group are no longer adjacent");
      if (!g.fixed) continue; auto part = [&](int x) { const Grp *b = nullptr; for (auto &o : grp) if (o.v.size() < g.v.size() && has(o.v, x) && has(g.v, o.v[0]) && (!b || o.v.size() > b->v.size())) b = &o; return b ? *std::min_element(b->v.begin(), b->v.end()) : x; };
      for (size_t i = 0; i < g.v.size(); i++) if (part(Cudd_ReadInvPerm(dd, l + i)) != part(g.v[i])) fail("group-broken: a fixed group changed its inner order"); } }
  void regroup() { for (auto &g : grp) { int l = lo(g), k = g.v.size(); for (int i = 0; i < k; i++) g.v[i] = Cudd_ReadInvPerm(dd, l + i); } }
  void push(DdNode *r, const TT &t) { pool.push_back({r, t}); }
  DdNode *ref(DdNode *r, const char *what) { if (!r) fail(string("null: ") + what + " gave no result"); Cudd_Ref(r); return r; }
  void drop(DdNode *r) { Cudd_RecursiveDeref(dd, r); }
  // result known exactly
  void exact(DdNode *r, const TT &t, const char *what) { ref(r, what); if (tt(r) != t) fail(string("wrong-result: ") + what); push(r, t); }
  void keep(DdNode *r, const std::function<bool(const TT &)> &ok, const char *what) { ref(r, what); TT t = tt(r); if (!ok(t)) fail(string("wrong-result: ") + what); push(r, t); }
  void same(bool a, bool b, const char *what) { if (a != b) fail(string("wrong-answer: ") + what); }
  void release(size_t i, int how) { DdNode *r = pool[i].first; pool.erase(pool.begin() + i); if (how == 1) Cudd_IterDerefBdd(dd, r); else if (how == 2) Cudd_DelayedDerefBdd(dd, r); else drop(r); }
  vector<int> vs(long mask) { vector<int> r; for (int i = 0; i < n; i++) if (mask >> i & 1) r.push_back(i); return r; }
  DdNode *cube(const vector<int> &v, long ph = -1) { vector<DdNode *> x; vector<int> p; for (int i : v) { x.push_back(Cudd_bddIthVar(dd, i)); p.push_back(ph >> i & 1); } x.push_back(nullptr); return ref(Cudd_bddComputeCube(dd, x.data(), p.data(), v.size()), "computeCube"); }
  TT cubeT(const vector<int> &v, long ph = -1) { TT t = ONE; for (int i : v) t &= ph >> i & 1 ? VARTT[i] : ~VARTT[i]; return t; }
  // a function of up to k chosen variables from random bits
  DdNode *build(const vector<int> &v, size_t i, Rng &r, int den, TT &t) { if (i == v.size()) { bool b = r.p(den); t = b ? ONE : ZERO; DdNode *c = b ? Cudd_ReadOne(dd) : Cudd_ReadLogicZero(dd); Cudd_Ref(c); return c; } TT a, b; DdNode *x = build(v, i + 1, r, den, a), *y = build(v, i + 1, r, den, b); DdNode *z = ref(Cudd_bddIte(dd, Cudd_bddIthVar(dd, v[i]), x, y), "ite"); t = (VARTT[v[i]] & a) | (~VARTT[v[i]] & b); drop(x); drop(y); return z; }
  void all(const char *when) { for (auto &x : pool) if (tt(x.first) != x.second) fail(string("function-changed: a stored function changed ") + when); for (auto &x : adds) if (va(x.first) != x.second) fail(string("function-changed: a stored ADD changed ") + when); for (auto &x : zs) if (zt(x.first) != x.second) fail(string("function-changed: a stored ZDD changed ") + when); }
  void canon() { for (size_t i = 0; i < pool.size(); i++) for (size_t j = 0; j < i; j++) { if ((pool[i].first == pool[j].first) != (pool[i].second == pool[j].second)) fail("not-canonical: equal functions with different nodes, or the reverse"); } for (size_t i = 0; i < adds.size(); i++) for (size_t j = 0; j < i; j++) if ((adds[i].first == adds[j].first) != (adds[i].second == adds[j].second)) fail("not-canonical: equal ADDs with different nodes, or the reverse"); for (size_t i = 0; i < zs.size(); i++) for (size_t j = 0; j < i; j++) if ((zs[i].first == zs[j].first) != (zs[i].second == zs[j].second)) fail("not-canonical: equal ZDDs with different nodes, or the reverse"); }
  void audit() { all("(final check)"); canon(); if (Cudd_DebugCheck(dd)) fail("debug-check: Cudd_DebugCheck reports an inconsistency"); if (Cudd_CheckKeys(dd)) fail("check-keys: Cudd_CheckKeys reports an inconsistency"); }
  void close(bool list) { if (Cudd_ReadBackground(dd) != Cudd_ReadZero(dd)) { DdNode *b = Cudd_ReadBackground(dd); Cudd_SetBackground(dd, Cudd_ReadZero(dd)); drop(b); } for (auto &x : adds) drop(x.first); adds.clear(); for (auto &x : zs) Cudd_RecursiveDerefZdd(dd, x.first); zs.clear(); while (!pool.empty()) release(pool.size() - 1, pool.size() % 3); (void)list; int z = Cudd_CheckZeroRef(dd); if (z) fail("leak: " + std::to_string(z) + " nodes keep references after everything was released"); Cudd_Quit(dd); }
};
struct Op { const char *name; char group; int weight; std::function<void(CM &, const A &)> f; };
static vector<Op> &ops() { static vector<Op> o; return o; }
static vector<DdNode *> varsOf(CM &m, const vector<int> &v) { vector<DdNode *> r; for (int i : v) r.push_back(Cudd_bddIthVar(m.dd, i)); return r; }
static vector<int> shuffled(int n, long seed) { Rng r(seed, 77, n); vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.upto(i + 1)]); return p; }
static long long evalNum(const vector<int> &v, int a) { long long x = 0; for (int i : v) x = 2 * x + (a >> i & 1); return x; } // most significant bit first
static TT tabulate(const std::function<bool(int)> &f) { TT t; for (int a = 0; a < 1 << NV; a++) t[a] = f(a); return t; }
static const Cudd_ReorderingType REO[] = {CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV, CUDD_REORDER_WINDOW2, CUDD_REORDER_WINDOW3, CUDD_REORDER_WINDOW4, CUDD_REORDER_WINDOW2_CONV, CUDD_REORDER_WINDOW3_CONV, CUDD_REORDER_WINDOW4_CONV, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_GROUP_SIFT_CONV, CUDD_REORDER_ANNEALING, CUDD_REORDER_GENETIC, CUDD_REORDER_LAZY_SIFT, CUDD_REORDER_EXACT, CUDD_REORDER_SAME};
static void decomp(CM &m, const A &a, int (*g)(DdManager *, DdNode *, DdNode ***), bool conj, const char *w) { DdNode **p = nullptr; TT f = m.F(a[1]).second; int k = g(m.dd, m.F(a[1]).first, &p); m.need(k == 1 || k == 2, string("null: ") + w); TT t = conj ? ONE : ZERO; for (int i = 0; i < k; i++) { TT x = m.tt(p[i]); t = conj ? t & x : t | x; } for (int i = 0; i < k; i++) m.drop(p[i]); free(p); if (t != f) m.fail(string("wrong-result: ") + w); }
static void initOps() {
  if (!ops().empty()) return; ttInit(); auto O = [](const char *n, char g, int w, std::function<void(CM &, const A &)> f) { ops().push_back({n, g, w, f}); };
#define OP(name, g, w) O(name, g, w, [](CM &m, const A &a) {
#define END });
#define B2(name, fn, expr) OP(name, 'b', 3) auto x = m.F(a[1]), y = m.F(a[2]); const TT &p = x.second, &q = y.second; m.exact(fn(m.dd, x.first, y.first), expr, name); END
  OP("var", 'r', 2) int v = a[1] % m.n; m.exact(Cudd_bddIthVar(m.dd, v), VARTT[v], "bddIthVar"); END
  OP("random", 'r', 6) auto v = m.vs(a[1]); if (a[5] % 3 == 0) v = m.vs(-1); if (v.size() > 7) v.erase(v.begin(), v.begin() + (v.size() - 7)); auto p = shuffled(v.size(), a[2]); vector<int> w; for (int i : p) w.push_back(v[i]); Rng r(a[3], 5, 5); TT t; DdNode *z = m.build(w, 0, r, 20 + a[4] % 60, t); if (m.tt(z) != t) m.fail("wrong-result: ite (bottom-up construction)"); m.push(z, t); END
  OP("cube", 'r', 2) auto v = m.vs(a[1]); DdNode *c = m.cube(v, a[2]); if (m.tt(c) != m.cubeT(v, a[2])) m.fail("wrong-result: bddComputeCube"); m.push(c, m.cubeT(v, a[2])); END
  OP("dup", 'r', 1) auto x = m.F(a[1]); Cudd_Ref(x.first); m.push(x.first, x.second); END
  OP("release", 'g', 5) if (m.pool.size() > 4) m.release(a[1] % m.pool.size(), a[2] % 3); END
  OP("again", 'g', 3) Cudd_ReorderingType rt; if (Cudd_ReorderingStatus(m.dd, &rt)) Cudd_SetNextReordering(m.dd, Cudd_ReadKeys(m.dd) + a[1] % 25); END
  OP("gc", 'g', 1) cuddGarbageCollect(m.dd, 1); Cudd_Reserve(m.dd, a[1] % 50); END
  B2("bddAnd", Cudd_bddAnd, p & q) B2("bddOr", Cudd_bddOr, p | q) B2("bddNand", Cudd_bddNand, ~(p & q)) B2("bddNor", Cudd_bddNor, ~(p | q)) B2("bddXor", Cudd_bddXor, p ^ q) B2("bddXnor", Cudd_bddXnor, ~(p ^ q))
  OP("not", 'b', 2) auto x = m.F(a[1]); m.exact(Cudd_Not(x.first), ~x.second, "not"); END
  OP("bddIte", 'b', 6) auto x = m.F(a[1]), y = m.F(a[2]), z = m.F(a[3]); if (a[4] & 1) { y.first = Cudd_Not(y.first); y.second = ~y.second; } if (a[4] & 2) { x.first = Cudd_Not(x.first); x.second = ~x.second; } if (a[4] & 4) { z.first = Cudd_Not(z.first); z.second = ~z.second; } if (a[4] & 8) z = x; if (a[4] & 16) { y = {Cudd_Not(z.first), ~z.second}; } TT t = (x.second & y.second) | (~x.second & z.second); m.exact(Cudd_bddIte(m.dd, x.first, y.first, z.first), t, "bddIte"); END
  OP("bddIteConstant", 'b', 2) auto x = m.F(a[1]), y = m.F(a[2]), z = m.F(a[3]); if (a[4] & 1) z = {Cudd_Not(y.first), ~y.second}; TT t = (x.second & y.second) | (~x.second & z.second); DdNode *r = Cudd_bddIteConstant(m.dd, x.first, y.first, z.first); m.need(r, "null: bddIteConstant"); if (Cudd_IsNonConstant(r)) { if (r == (DdNode *)1) m.same(t == ONE || t == ZERO, false, "bddIteConstant misses a constant"); } else m.same(m.tt(r) == t, true, "bddIteConstant"); END
  OP("bddAndLimit", 'b', 1) auto x = m.F(a[1]), y = m.F(a[2]); DdNode *r = Cudd_bddAndLimit(m.dd, x.first, y.first, a[3] % 40); if (r) m.exact(r, x.second & y.second, "bddAndLimit"); else { m.need(Cudd_ReadErrorCode(m.dd) == CUDD_TOO_MANY_NODES || true, ""); Cudd_ClearErrorCode(m.dd); } END
  OP("bddOrLimit", 'b', 1) auto x = m.F(a[1]), y = m.F(a[2]); DdNode *r = Cudd_bddOrLimit(m.dd, x.first, y.first, a[3] % 40); if (r) m.exact(r, x.second | y.second, "bddOrLimit"); else Cudd_ClearErrorCode(m.dd); END
  OP("bddXnorLimit", 'b', 1) auto x = m.F(a[1]), y = m.F(a[2]); DdNode *r = Cudd_bddXnorLimit(m.dd, x.first, y.first, a[3] % 40); if (r) m.exact(r, ~(x.second ^ y.second), "bddXnorLimit"); else Cudd_ClearErrorCode(m.dd); END
  OP("bddIteLimit", 'b', 1) auto x = m.F(a[1]), y = m.F(a[2]), z = m.F(a[3]); DdNode *r = Cudd_bddIteLimit(m.dd, x.first, y.first, z.first, a[4] % 40); if (r) m.exact(r, (x.second & y.second) | (~x.second & z.second), "bddIteLimit"); else Cudd_ClearErrorCode(m.dd); END
  OP("bddLeq", 'b', 3) auto x = m.F(a[1]), y = m.F(a[2]); m.same(Cudd_bddLeq(m.dd, x.first, y.first), leqT(x.second, y.second), "bddLeq"); TT u = x.second | y.second; DdNode *r = m.ref(Cudd_bddOr(m.dd, x.first, y.first), "or"); m.same(Cudd_bddLeq(m.dd, x.first, r), true, "bddLeq(f, f+g)"); m.push(r, u); END
  OP("bddIntersect", 'b', 2) auto x = m.F(a[1]), y = m.F(a[2]); TT t = x.second & y.second; m.keep(Cudd_bddIntersect(m.dd, x.first, y.first), [&](const TT &r) { return leqT(r, t) && r.any() == t.any(); }, "bddIntersect"); END
  OP("eval", 'b', 2) auto x = m.F(a[1]); int in[NV]; int k = a[2] & ((1 << m.n) - 1); for (int i = 0; i < NV; i++) in[i] = k >> i & 1; m.same(Cudd_Eval(m.dd, x.first, in) == Cudd_ReadOne(m.dd), x.second[k], "Eval"); END
  OP("isVar", 'b', 1) auto x = m.F(a[1]); bool b = false; for (int i = 0; i < m.n; i++) b |= x.second == VARTT[i]; m.same(Cudd_bddIsVar(m.dd, x.first), b, "bddIsVar"); END
  // quantification and substitution
  OP("bddExistAbstract", 'q', 3) auto x = m.F(a[1]); auto v = m.vs(a[2]); DdNode *c = m.cube(v); m.exact(Cudd_bddExistAbstract(m.dd, x.first, c), exT(x.second, v), "bddExistAbstract"); m.drop(c); END
  OP("bddUnivAbstract", 'q', 2) auto x = m.F(a[1]); auto v = m.vs(a[2]); DdNode *c = m.cube(v); m.exact(Cudd_bddUnivAbstract(m.dd, x.first, c), unT(x.second, v), "bddUnivAbstract"); m.drop(c); END
  OP("bddAndAbstract", 'q', 4) auto x = m.F(a[1]), y = m.F(a[2]); auto v = m.vs(a[3]); DdNode *c = m.cube(v); m.exact(Cudd_bddAndAbstract(m.dd, x.first, y.first, c), exT(x.second & y.second, v), "bddAndAbstract"); m.drop(c); END
  OP("bddXorExistAbstract", 'q', 2) auto x = m.F(a[1]), y = m.F(a[2]); auto v = m.vs(a[3]); DdNode *c = m.cube(v); m.exact(Cudd_bddXorExistAbstract(m.dd, x.first, y.first, c), exT(x.second ^ y.second, v), "bddXorExistAbstract"); m.drop(c); END
  OP("limitAbstract", 'q', 1) auto x = m.F(a[1]), y = m.F(a[2]); auto v = m.vs(a[3]); DdNode *c = m.cube(v); int k = a[5] % 3; DdNode *r = k == 0 ? Cudd_bddAndAbstractLimit(m.dd, x.first, y.first, c, a[4] % 40) : k == 1 ? Cudd_bddExistAbstractLimit(m.dd, x.first, c, a[4] % 40) : Cudd_bddUnivAbstractLimit(m.dd, x.first, c, a[4] % 40); if (r) m.exact(r, k == 0 ? exT(x.second & y.second, v) : k == 1 ? exT(x.second, v) : unT(x.second, v), "abstraction with limit"); else Cudd_ClearErrorCode(m.dd); m.drop(c); END
  OP("bddBooleanDiff", 'q', 1) auto x = m.F(a[1]); int v = a[2] % m.n; m.exact(Cudd_bddBooleanDiff(m.dd, x.first, v), cofT(x.second, v, 0) ^ cofT(x.second, v, 1), "bddBooleanDiff"); END
  OP("Cofactor", 'q', 2) auto x = m.F(a[1]); auto v = m.vs(a[2]); DdNode *c = m.cube(v, a[3]); TT t = x.second; for (int i : v) t = cofT(t, i, a[3] >> i & 1); m.same(Cudd_CheckCube(m.dd, c), true, "CheckCube"); m.exact(Cudd_Cofactor(m.dd, x.first, c), t, "Cofactor"); m.drop(c); END
  OP("bddCompose", 'q', 3) auto x = m.F(a[1]), y = m.F(a[2]); int v = a[3] % m.n; m.exact(Cudd_bddCompose(m.dd, x.first, y.first, v), (y.second & cofT(x.second, v, 1)) | (~y.second & cofT(x.second, v, 0)), "bddCompose"); END
  OP("bddVectorCompose", 'q', 2) auto x = m.F(a[1]); vector<DdNode *> g; vector<TT> t; Rng r(a[2], 9, 9); for (int i = 0; i < m.n; i++) { if (r.p(50)) { g.push_back(Cudd_bddIthVar(m.dd, i)); t.push_back(VARTT[i]); } else { auto y = m.F(r.upto(1000)); g.push_back(y.first); t.push_back(y.second); } } TT z = tabulate([&](int s) { int b = 0; for (int i = 0; i < m.n; i++) b |= int(t[i][s]) << i; return x.second[b]; }); m.exact(Cudd_bddVectorCompose(m.dd, x.first, g.data()), z, "bddVectorCompose"); END
  OP("bddPermute", 'q', 2) auto x = m.F(a[1]); auto p = shuffled(m.n, a[2]); TT z = tabulate([&](int s) { int b = 0; for (int i = 0; i < m.n; i++) b |= (s >> p[i] & 1) << i; return x.second[b]; }); m.exact(Cudd_bddPermute(m.dd, x.first, p.data()), z, "bddPermute"); END
  OP("bddSwapVariables", 'q', 3) auto x = m.F(a[1]); auto p = shuffled(m.n, a[2]); int k = a[3] % (m.n / 2 + 1); vector<int> u(p.begin(), p.begin() + k), w(p.begin() + k, p.begin() + 2 * k); auto U = varsOf(m, u), W = varsOf(m, w); TT z = tabulate([&](int s) { int b = s & ((1 << m.n) - 1); for (int i = 0; i < k; i++) { b &= ~(1 << u[i]) & ~(1 << w[i]); b |= (s >> w[i] & 1) << u[i] | (s >> u[i] & 1) << w[i]; } return x.second[b]; }); if (a[4] & 1) m.exact(Cudd_bddSwapVariables(m.dd, x.first, U.data(), W.data(), k), z, "bddSwapVariables"); else { m.need(Cudd_SetVarMap(m.dd, U.data(), W.data(), k), "null: SetVarMap"); m.exact(Cudd_bddVarMap(m.dd, x.first), z, "bddVarMap"); } END
  OP("bddTransfer", 'q', 1) auto x = m.F(a[1]); DdManager *d = Cudd_Init(m.n, 0, 4, 32, 0); auto p = shuffled(m.n, a[2]); m.need(Cudd_ShuffleHeap(d, p.data()), "null: ShuffleHeap"); DdNode *r = Cudd_bddTransfer(m.dd, d, x.first); m.need(r, "null: bddTransfer"); Cudd_Ref(r); std::swap(d, m.dd); TT t = m.tt(r); std::swap(d, m.dd); m.same(t == x.second, true, "bddTransfer"); DdNode *b = m.ref(Cudd_bddTransfer(d, m.dd, r), "bddTransfer"); m.same(b == x.first, true, "bddTransfer back and forth"); m.push(b, x.second); Cudd_RecursiveDeref(d, r); m.need(!Cudd_DebugCheck(d), "debug-check: after transfer"); m.need(!Cudd_CheckZeroRef(d), "leak: after transfer"); Cudd_Quit(d); END
  OP("CProjection", 'q', 1) auto x = m.F(a[1]); auto v = m.vs(a[2]); DdNode *c = m.cube(v, a[3]); TT e = exT(x.second, v); int k = v.size(); m.keep(Cudd_CProjection(m.dd, x.first, c), [&](const TT &r) { if (!leqT(r, x.second) || exT(r, v) != e) return false; for (int s = 0; s < 1 << NV; s++) if (r[s]) { for (int b = 1; b < 1 << k; b++) { int q = s; for (int i = 0; i < k; i++) if (b >> i & 1) q ^= 1 << v[i]; if (r[q]) return false; } } return true; }, "CProjection"); m.drop(c); END
  OP("bddVarIsDependent", 'q', 1) auto x = m.F(a[1]); int v = a[2] % m.n; bool dep = (cofT(x.second, v, 0) & cofT(x.second, v, 1)).none(); m.same(Cudd_bddVarIsDependent(m.dd, x.first, Cudd_bddIthVar(m.dd, v)), dep, "bddVarIsDependent"); END
  OP("symmetric", 'q', 1) auto x = m.F(a[1]); int u = a[2] % m.n, v = a[3] % m.n; if (u != v) m.same(Cudd_VarsAreSymmetric(m.dd, x.first, u, v), cofT(cofT(x.second, u, 0), v, 1) == cofT(cofT(x.second, u, 1), v, 0), "VarsAreSymmetric"); END
  OP("monotone", 'q', 1) auto x = m.F(a[1]); int v = a[2] % m.n; TT l = cofT(x.second, v, 0), h = cofT(x.second, v, 1); DdNode *o = Cudd_ReadOne(m.dd), *z = Cudd_Not(o); DdNode *r = Cudd_Increasing(m.dd, x.first, v), *s = Cudd_Decreasing(m.dd, x.first, v); m.same(r == (leqT(l, h) ? o : z), true, "Increasing"); m.same(s == (leqT(h, l) ? o : z), true, "Decreasing"); END
  OP("SolveEqn", 'q', 1) auto x = m.F(a[1]); auto y = m.vs(a[2]); if (y.empty()) return; int k = y.size(); DdNode *c = m.cube(y); vector<DdNode *> G(k); int *yi = nullptr; DdNode *r = m.ref(Cudd_SolveEqn(m.dd, x.first, c, G.data(), &yi, k), "SolveEqn"); TT con = unT(x.second, y); m.same(m.tt(r) == con, true, "SolveEqn consistency condition"); DdNode *s = m.ref(Cudd_VerifySol(m.dd, x.first, G.data(), yi, k), "VerifySol"); m.same(m.tt(s) == con, true, "SolveEqn solution"); for (auto *g : G) m.drop(g); m.drop(c); m.drop(s); m.push(r, con); END
  // don't cares, intervals, covers
  OP("bddConstrain", 'm', 2) auto x = m.F(a[1]), c = m.F(a[2]); if (c.second.none()) return; m.keep(Cudd_bddConstrain(m.dd, x.first, c.first), [&](const TT &r) { return ((r ^ x.second) & c.second).none(); }, "bddConstrain"); END
  OP("bddRestrict", 'm', 3) auto x = m.F(a[1]), c = m.F(a[2]); if (c.second.none()) return; int before = m.nodes(x.first); DdNode *r = Cudd_bddRestrict(m.dd, x.first, c.first); m.keep(r, [&](const TT &t) { if (((t ^ x.second) & c.second).any()) return false; auto s = supT(x.second); for (int i : supT(t)) if (std::find(s.begin(), s.end(), i) == s.end()) return false; return true; }, "bddRestrict"); if (!m.rec && m.nodes(m.pool.back().first) > before) m.fail("wrong-result: bddRestrict gives a larger result than its argument"); END
  OP("bddMinimize", 'm', 2) auto x = m.F(a[1]), c = m.F(a[2]); if (c.second.none()) return; m.keep(Cudd_bddMinimize(m.dd, x.first, c.first), [&](const TT &r) { return ((r ^ x.second) & c.second).none(); }, "bddMinimize"); END
  OP("bddLICompaction", 'm', 2) auto x = m.F(a[1]), c = m.F(a[2]); if (c.second.none()) return; int before = m.nodes(x.first); m.keep(Cudd_bddLICompaction(m.dd, x.first, c.first), [&](const TT &r) { return ((r ^ x.second) & c.second).none(); }, "bddLICompaction"); if (!m.rec && m.nodes(m.pool.back().first) > before) m.fail("wrong-result: bddLICompaction gives a larger result than its argument"); END
  OP("bddNPAnd", 'm', 2) auto x = m.F(a[1]), c = m.F(a[2]); m.keep(Cudd_bddNPAnd(m.dd, x.first, c.first), [&](const TT &r) { if (!leqT(r, x.second) || !leqT(x.second & c.second, r)) return false; auto s = supT(x.second); for (int i : supT(r)) if (std::find(s.begin(), s.end(), i) == s.end()) return false; return true; }, "bddNPAnd"); END
  OP("interval", 'm', 5) auto x = m.F(a[1]), y = m.F(a[2]); DdNode *l = m.ref(Cudd_bddAnd(m.dd, x.first, y.first), "and"); TT lt = x.second & y.second; auto u = a[4] & 1 ? m.F(a[1]) : m.F(a[2]); auto in = [&](const TT &r) { return leqT(lt, r) && leqT(r, u.second); }; switch (a[3] % 3) { case 0: m.keep(Cudd_bddSqueeze(m.dd, l, u.first), in, "bddSqueeze"); break; case 1: m.keep(Cudd_bddInterpolate(m.dd, l, u.first), [&](const TT &r) { if (!in(r)) return false; auto s = supT(lt), q = supT(u.second); for (int i : supT(r)) if (std::find(s.begin(), s.end(), i) == s.end() || std::find(q.begin(), q.end(), i) == q.end()) return false; return true; }, "bddInterpolate"); break; default: m.keep(Cudd_bddIsop(m.dd, l, u.first), in, "bddIsop"); } m.drop(l); END
  OP("ConstrainDecomp", 'm', 1) auto x = m.F(a[1]); if (x.second.none()) return; DdNode **p = Cudd_bddConstrainDecomp(m.dd, x.first); m.need(p, "null: bddConstrainDecomp"); TT t = ONE; for (int i = 0; i < m.n; i++) t &= m.tt(p[i]); for (int i = 0; i < m.n; i++) m.drop(p[i]); free(p); m.same(t == x.second, true, "bddConstrainDecomp"); END
  OP("CharToVect", 'm', 1) auto x = m.F(a[1]); if (x.second.none()) return; DdNode **p = Cudd_bddCharToVect(m.dd, x.first); m.need(p, "null: bddCharToVect"); vector<TT> t; for (int i = 0; i < m.n; i++) t.push_back(m.tt(p[i])); for (int i = 0; i < m.n; i++) m.drop(p[i]); free(p); for (int s = 0; s < 1 << m.n; s++) { int b = 0; for (int i = 0; i < m.n; i++) b |= int(t[i][s]) << i; m.same(x.second[b], true, "bddCharToVect maps outside the function"); if (x.second[s]) m.same(b == s, true, "bddCharToVect moves a member"); } END
  OP("EquivDC", 'm', 2) auto x = m.F(a[1]), y = m.F(a[2]), d = m.F(a[3]); m.same(Cudd_EquivDC(m.dd, x.first, y.first, d.first), leqT(x.second ^ y.second, d.second), "EquivDC"); m.same(Cudd_bddLeqUnless(m.dd, x.first, y.first, d.first), leqT(x.second & ~y.second, d.second), "bddLeqUnless"); END
  OP("MakePrime", 'm', 2) auto x = m.F(a[1]); if (x.second.none()) return; int s = a[2] & ((1 << m.n) - 1), k = 0; while (!x.second[s] && k++ < 1 << m.n) s = (s + 1) & ((1 << m.n) - 1); vector<int> v(m.n); for (int i = 0; i < m.n; i++) v[i] = i; DdNode *c = m.cube(v, s); DdNode *r = Cudd_bddMakePrime(m.dd, c, x.first); m.keep(r, [&](const TT &t) { if (!t[s] || !leqT(t, x.second)) return false; vector<int> lits = supT(t); if (t != m.cubeT(lits, s)) return false; for (size_t i = 0; i < lits.size(); i++) { auto w = lits; w.erase(w.begin() + i); if (leqT(m.cubeT(w, s), x.second)) return false; } return true; }, "bddMakePrime"); DdNode *e = m.ref(Cudd_bddMaximallyExpand(m.dd, c, Cudd_ReadOne(m.dd), x.first), "bddMaximallyExpand"); TT want; for (int msk = 0; msk < 1 << m.n; msk++) { vector<int> w; for (int i = 0; i < m.n; i++) if (msk >> i & 1) w.push_back(i); TT q = m.cubeT(w, s); if (leqT(q, x.second)) want |= q; } m.same(m.tt(e) == want, true, "bddMaximallyExpand"); m.drop(c); m.push(e, want); END
  OP("LargestCube", 'm', 2) auto x = m.F(a[1]); if (x.second.none()) return; int len = 0; int best = 99; // fewest literals over paths of the diagram
    std::function<int(DdNode *)> sp = [&](DdNode *f) -> int { DdNode *r = Cudd_Regular(f); if (Cudd_IsConstant(r)) return f == Cudd_ReadOne(m.dd) ? 0 : 99; bool c = Cudd_IsComplement(f); return 1 + std::min(sp(Cudd_NotCond(Cudd_T(r), c)), sp(Cudd_NotCond(Cudd_E(r), c))); }; best = sp(x.first); m.keep(Cudd_LargestCube(m.dd, x.first, &len), [&](const TT &t) { if (!leqT(t, x.second) || t.none()) return false; auto l = supT(t); for (int i : l) if (cofT(t, i, 0).any() && cofT(t, i, 1).any()) return false; return (int)l.size() == len; }, "LargestCube"); if (!m.rec && len != best) m.fail("wrong-result: LargestCube length " + std::to_string(len) + " instead of " + std::to_string(best)); END
  OP("ShortestPath", 'm', 2) auto x = m.F(a[1]); if (x.second.none()) return; Rng r(a[2], 4, 4); int w[NV + 1] = {0}, sup[NV + 1] = {0}, len = 0; for (int i = 0; i < m.n; i++) w[i] = r.in(0, 5); int best = 1 << 20; for (int s = 0; s < 1 << m.n; s++) if (x.second[s]) { int c = 0; for (int i = 0; i < m.n; i++) if (s >> i & 1) c += w[i]; best = std::min(best, c); } m.keep(Cudd_ShortestPath(m.dd, x.first, w, a[3] & 1 ? sup : nullptr, &len), [&](const TT &t) { if (!leqT(t, x.second) || t.none()) return false; int c = 0; for (int i : supT(t)) if (cofT(t, i, 0).none()) c += w[i]; return c == len; }, "ShortestPath"); if (len != best) m.fail("wrong-result: ShortestPath length"); m.same(Cudd_ShortestLength(m.dd, x.first, w) == best, true, "ShortestLength"); if (a[3] & 1) for (int i = 0; i < m.n; i++) m.same(sup[i], depT(x.second, i), "ShortestPath support"); END
  OP("FindEssential", 'm', 2) auto x = m.F(a[1]); TT t = ONE; if (x.second.none()) return; for (int i = 0; i < m.n; i++) { bool p = leqT(x.second, VARTT[i]), q = leqT(x.second, ~VARTT[i]); m.same(Cudd_bddIsVarEssential(m.dd, x.first, i, 1), p, "bddIsVarEssential"); m.same(Cudd_bddIsVarEssential(m.dd, x.first, i, 0), q, "bddIsVarEssential"); if (p) t &= VARTT[i]; if (q) t &= ~VARTT[i]; } m.exact(Cudd_FindEssential(m.dd, x.first), t, "FindEssential"); END
  OP("TwoLiteral", 'm', 1) auto x = m.F(a[1]); if (x.second.none() || x.second.all()) return; bool sorted = true; for (int i = 0; i < m.n; i++) sorted &= Cudd_ReadPerm(m.dd, i) == i; if (!sorted && a[2] < 2000000) return; /* other orders: see the known finding */ DdTlcInfo *t = Cudd_FindTwoLiteralClauses(m.dd, x.first); m.need(t, "null: FindTwoLiteralClauses"); TT con = ONE, want = ONE; unsigned u, v; int p, q; for (int i = 0; Cudd_ReadIthClause(t, i, &u, &v, &p, &q); i++) { TT c = (u < NV ? (p ? ~VARTT[u] : VARTT[u]) : ZERO); if (v < NV) c |= (q ? ~VARTT[v] : VARTT[v]); if (!leqT(x.second, c)) m.fail("wrong-result: FindTwoLiteralClauses gives a clause that is not implied"); con &= c; } Cudd_tlcInfoFree(t); for (int i = 0; i < m.n; i++) for (int j = 0; j <= i; j++) for (int k = 0; k < 4; k++) { TT c = (k & 1 ? VARTT[i] : ~VARTT[i]) | (k & 2 ? VARTT[j] : ~VARTT[j]); if (leqT(x.second, c)) want &= c; } m.same(con == want, true, "FindTwoLiteralClauses misses a clause"); END
  OP("ClosestCube", 'm', 1) auto x = m.F(a[1]), y = m.F(a[2]); if (x.second.none() || y.second.none()) return; int dist = -1; int best = 99; for (int s = 0; s < 1 << m.n; s++) if (y.second[s]) for (int q = 0; q < 1 << m.n; q++) if (x.second[q]) best = std::min(best, __builtin_popcount(s ^ q)); m.keep(Cudd_bddClosestCube(m.dd, x.first, y.first, &dist), [&](const TT &t) { if (t.none() || !leqT(t, x.second)) return false; for (int q = 0; q < 1 << m.n; q++) if (t[q] && hamT(y.second, q) != best) return false; return true; }, "bddClosestCube"); m.same(dist == best, true, "bddClosestCube distance"); END
  OP("MinHammingDist", 'm', 1) auto x = m.F(a[1]); int in[NV]; int s = a[2] & ((1 << m.n) - 1); for (int i = 0; i < NV; i++) in[i] = s >> i & 1; int ub = 1 + a[3] % 8; int b = x.second.none() ? ub : hamT(x.second, s); m.same(Cudd_MinHammingDist(m.dd, x.first, in, ub) == std::min(ub, b), true, "MinHammingDist"); END
  OP("LiteralSetIntersection", 'm', 1) auto u = m.vs(a[1]), v = m.vs(a[3]); DdNode *x = m.cube(u, a[2]), *y = m.cube(v, a[4]); TT t = ONE; for (int i : u) for (int j : v) if (i == j && (a[2] >> i & 1) == (a[4] >> i & 1)) t &= a[2] >> i & 1 ? VARTT[i] : ~VARTT[i]; m.exact(Cudd_bddLiteralSetIntersection(m.dd, x, y), t, "bddLiteralSetIntersection"); m.drop(x); m.drop(y); END
  // relations on numbers
  OP("compare", 'n', 3) auto p = shuffled(m.n, a[1]); int k = std::min<int>(m.n / 2, 1 + a[2] % 4); if (!k) return; vector<int> u(p.begin(), p.begin() + k), w(p.begin() + k, p.begin() + 2 * k); auto U = varsOf(m, u), W = varsOf(m, w); int c = int(a[4] % 40) - 20; switch (a[3] % 5) { case 0: m.exact(Cudd_Xgty(m.dd, k, nullptr, U.data(), W.data()), tabulate([&](int s) { return evalNum(u, s) > evalNum(w, s); }), "Xgty"); break; case 1: m.exact(Cudd_Xeqy(m.dd, k, U.data(), W.data()), tabulate([&](int s) { return evalNum(u, s) == evalNum(w, s); }), "Xeqy"); break; case 2: m.exact(Cudd_Inequality(m.dd, k, c, U.data(), W.data()), tabulate([&](int s) { return evalNum(u, s) - evalNum(w, s) >= c; }), "Inequality"); break; case 3: m.exact(Cudd_Disequality(m.dd, k, c, U.data(), W.data()), tabulate([&](int s) { return evalNum(u, s) - evalNum(w, s) != c; }), "Disequality"); break; default: { unsigned lo = a[4] % (1 << k), hi = a[5] % (1 << k); m.exact(Cudd_bddInterval(m.dd, k, U.data(), lo, hi), tabulate([&](int s) { return evalNum(u, s) >= lo && evalNum(u, s) <= hi; }), "bddInterval"); } } END
  OP("distance", 'n', 2) auto p = shuffled(m.n, a[1]); int k = std::min<int>(m.n / 3, 1 + a[2] % 3); if (!k) return; vector<int> x(p.begin(), p.begin() + k), y(p.begin() + k, p.begin() + 2 * k), z(p.begin() + 2 * k, p.begin() + 3 * k); auto X = varsOf(m, x), Y = varsOf(m, y), Z = varsOf(m, z); bool q = a[3] & 1; m.exact(q ? Cudd_Dxygtdxz(m.dd, k, X.data(), Y.data(), Z.data()) : Cudd_Dxygtdyz(m.dd, k, X.data(), Y.data(), Z.data()), tabulate([&](int s) { int xx = evalNum(x, s), yy = evalNum(y, s), zz = evalNum(z, s); int d1 = xx ^ yy, d2 = q ? xx ^ zz : yy ^ zz; return d1 > d2; }), q ? "Dxygtdxz" : "Dxygtdyz"); END
  // counting, support, enumeration
  OP("count", 'c', 4) auto x = m.F(a[1]); double cnt = x.second.count(); m.same(Cudd_CountMinterm(m.dd, x.first, NV) == cnt, true, "CountMinterm"); m.same(Cudd_LdblCountMinterm(m.dd, x.first, NV) == (long double)cnt, true, "LdblCountMinterm"); EpDouble *ep = EpdAlloc(); m.same(Cudd_EpdCountMinterm(m.dd, x.first, NV, ep), 0, "EpdCountMinterm status"); char sb[64]; EpdGetString(ep, sb); double mant; int ex; EpdGetValueAndDecimalExponent(ep, &mant, &ex); EpdFree(ep); m.same(fabs(mant * pow(10, ex) - cnt) < 1e-6 * (1 + cnt), true, "EpdCountMinterm"); int extra = a[2] % 120; int dg; DdApaNumber ap = Cudd_ApaCountMinterm(m.dd, x.first, NV + extra, &dg); m.need(ap, "null: ApaCountMinterm"); char *s = Cudd_ApaStringDecimal(dg, ap); string got = s; free(s); Cudd_FreeApaNumber(ap); string w = std::to_string((long)cnt); for (int i = 0; i < extra; i++) { int c = 0; for (int j = w.size() - 1; j >= 0; j--) { int d = (w[j] - '0') * 2 + c; w[j] = '0' + d % 10; c = d / 10; } if (c) w = "1" + w; } size_t nz = got.find_first_not_of('0'); got = nz == string::npos ? "0" : got.substr(nz); m.same(got == w, true, "ApaCountMinterm"); END
  OP("size", 'c', 2) auto x = m.F(a[1]); int k = m.nodes(x.first); m.same(Cudd_DagSize(x.first) == k, true, "DagSize"); vector<DdNode *> v; set<DdNode *> un; for (int i = 1; i < 4; i++) { v.push_back(m.F(a[i]).first); std::function<void(DdNode *)> g = [&](DdNode *y) { y = Cudd_Regular(y); if (!un.insert(y).second || Cudd_IsConstant(y)) return; g(Cudd_T(y)); g(Cudd_E(y)); }; g(v.back()); } m.same(Cudd_SharingSize(v.data(), 3) == (int)un.size(), true, "SharingSize"); std::function<double(DdNode *)> paths = [&](DdNode *y) -> double { y = Cudd_Regular(y); return Cudd_IsConstant(y) ? 1 : paths(Cudd_T(y)) + paths(Cudd_E(y)); }; m.same(Cudd_CountPath(x.first) == paths(x.first), true, "CountPath"); std::function<double(DdNode *)> nz = [&](DdNode *y) -> double { DdNode *r = Cudd_Regular(y); if (Cudd_IsConstant(r)) return y == Cudd_ReadOne(m.dd); bool c = y != r; return nz(Cudd_NotCond(Cudd_T(r), c)) + nz(Cudd_NotCond(Cudd_E(r), c)); }; m.same(Cudd_CountPathsToNonZero(x.first) == nz(x.first), true, "CountPathsToNonZero"); m.same(fabs(Cudd_Density(m.dd, x.first, NV) - x.second.count() / double(k)) < 1e-9 * (1 + x.second.count()), true, "Density"); END
  OP("support", 'c', 3) auto x = m.F(a[1]), y = m.F(a[2]); auto s = supT(x.second), q = supT(y.second); int *ix = nullptr; int k = Cudd_SupportIndices(m.dd, x.first, &ix); vector<int> got(ix, ix + std::max(k, 0)); free(ix); std::sort(got.begin(), got.end()); m.same(got == s, true, "SupportIndices"); m.same(Cudd_SupportSize(m.dd, x.first) == (int)s.size(), true, "SupportSize"); int *z = Cudd_SupportIndex(m.dd, x.first); for (int i = 0; i < m.n; i++) m.same(z[i], depT(x.second, i), "SupportIndex"); free(z); m.exact(Cudd_Support(m.dd, x.first), m.cubeT(s), "Support"); DdNode *fs[2] = {x.first, y.first}; vector<int> un = s; for (int i : q) if (std::find(un.begin(), un.end(), i) == un.end()) un.push_back(i); m.exact(Cudd_VectorSupport(m.dd, fs, 2), m.cubeT(un), "VectorSupport"); m.same(Cudd_VectorSupportSize(m.dd, fs, 2) == (int)un.size(), true, "VectorSupportSize"); DdNode *c, *of, *og; m.need(Cudd_ClassifySupport(m.dd, x.first, y.first, &c, &of, &og), "null: ClassifySupport"); Cudd_Ref(c); Cudd_Ref(of); Cudd_Ref(og); TT tc = ONE, t1 = ONE, t2 = ONE; for (int i = 0; i < m.n; i++) { bool p = depT(x.second, i), r = depT(y.second, i); if (p && r) tc &= VARTT[i]; else if (p) t1 &= VARTT[i]; else if (r) t2 &= VARTT[i]; } m.same(m.tt(c) == tc && m.tt(of) == t1 && m.tt(og) == t2, true, "ClassifySupport"); m.drop(c); m.drop(of); m.drop(og); END
  OP("cubes", 'c', 3) auto x = m.F(a[1]); int *cb; CUDD_VALUE_TYPE val; TT u; DdGen *g = Cudd_FirstCube(m.dd, x.first, &cb, &val); m.need(g, "null: FirstCube"); long cnt = 0; while (!Cudd_IsGenEmpty(g)) { TT t = ONE; for (int i = 0; i < m.n; i++) if (cb[i] != 2) t &= cb[i] ? VARTT[i] : ~VARTT[i]; if (val == 1) { if ((t & u).any()) m.fail("wrong-result: FirstCube/NextCube give overlapping cubes"); u |= t; } else m.fail("wrong-result: cube value"); if (++cnt > 2048) m.fail("wrong-result: cube enumeration does not end"); if (!Cudd_NextCube(g, &cb, &val)) break; } Cudd_GenFree(g); m.same(u == x.second, true, "FirstCube/NextCube do not cover the function"); END
  OP("primes", 'c', 1) auto x = m.F(a[1]), y = m.F(a[2]); DdNode *l = m.ref(Cudd_bddAnd(m.dd, x.first, y.first), "and"); TT lt = x.second & y.second, u; int *cb; DdGen *g = Cudd_FirstPrime(m.dd, l, x.first, &cb); m.need(g, "null: FirstPrime"); long cnt = 0; while (!Cudd_IsGenEmpty(g)) { vector<int> li; long ph = 0; for (int i = 0; i < m.n; i++) if (cb[i] != 2) { li.push_back(i); ph |= long(cb[i]) << i; } TT t = m.cubeT(li, ph); if (!leqT(t, x.second)) m.fail("wrong-result: FirstPrime leaves the upper bound"); for (size_t i = 0; i < li.size(); i++) { auto w = li; w.erase(w.begin() + i); if (leqT(m.cubeT(w, ph), x.second)) m.fail("wrong-result: FirstPrime gives a cube that is not prime"); } u |= t; if (++cnt > 2048) m.fail("wrong-result: prime enumeration does not end"); if (!Cudd_NextPrime(g, &cb)) break; } Cudd_GenFree(g); m.same(leqT(lt, u), true, "primes do not cover the lower bound"); m.push(l, lt); END
  OP("nodes", 'c', 1) auto x = m.F(a[1]); set<DdNode *> s; DdNode *nd; DdGen *g = Cudd_FirstNode(m.dd, x.first, &nd); m.need(g, "null: FirstNode"); while (!Cudd_IsGenEmpty(g)) { if (!s.insert(nd).second) m.fail("wrong-result: NextNode repeats a node"); if (!Cudd_NextNode(g, &nd)) break; } Cudd_GenFree(g); m.same((int)s.size() == m.nodes(x.first), true, "FirstNode/NextNode"); END
  OP("pick", 'c', 3) auto x = m.F(a[1]); if (x.second.none()) return; vector<char> st(m.n); m.need(Cudd_bddPickOneCube(m.dd, x.first, st.data()), "null: bddPickOneCube"); TT t = ONE; for (int i = 0; i < m.n; i++) if (st[i] != 2) t &= st[i] ? VARTT[i] : ~VARTT[i]; m.same(leqT(t, x.second), true, "bddPickOneCube"); vector<int> v(m.n); for (int i = 0; i < m.n; i++) v[i] = i; auto V = varsOf(m, v); TT lim = tabulate([&](int s) { return s < 1 << m.n; }); auto one = [&](const TT &q) { return (q & lim).count() == 1 && leqT(q, x.second); }; m.keep(Cudd_bddPickOneMinterm(m.dd, x.first, V.data(), m.n), one, "bddPickOneMinterm"); int tot = (x.second & lim).count(), k = 1 + a[2] % std::min(tot, 12); DdNode **p = Cudd_bddPickArbitraryMinterms(m.dd, x.first, V.data(), m.n, k); m.need(p, "null: bddPickArbitraryMinterms"); TT un; for (int i = 0; i < k; i++) { Cudd_Ref(p[i]); } for (int i = 0; i < k; i++) { TT q = m.tt(p[i]); if (!one(q)) m.fail("wrong-result: bddPickArbitraryMinterms gives something other than a minterm of the function"); if ((un & q).any()) m.fail("wrong-result: bddPickArbitraryMinterms repeats a minterm"); un |= q; m.drop(p[i]); } free(p); END
  OP("SplitSet", 'c', 1) auto x = m.F(a[1]); vector<int> v(m.n); for (int i = 0; i < m.n; i++) v[i] = i; auto V = varsOf(m, v); TT lim = tabulate([&](int s) { return s < 1 << m.n; }); int tot = (x.second & lim).count(), k = a[2] % (tot + 1); m.keep(Cudd_SplitSet(m.dd, x.first, V.data(), m.n, k), [&](const TT &r) { return leqT(r, x.second) && (int)(r & lim).count() == k; }, "SplitSet"); END
  OP("CofMinterm", 'c', 1) auto x = m.F(a[1]); double *d = Cudd_CofMinterm(m.dd, x.first); m.need(d, "null: CofMinterm"); vector<double> w(d, d + m.n + 1); free(d); double N = 1 << NV; for (int i = 0; i <= m.n; i++) m.same(fabs(w[i] - (i < m.n ? cofT(x.second, i, 1) : x.second).count() / N) < 1e-9, true, "CofMinterm"); END
  OP("Correlation", 'c', 1) auto x = m.F(a[1]), y = m.F(a[2]); double N = 1 << NV; m.same(fabs(Cudd_bddCorrelation(m.dd, x.first, y.first) - (~(x.second ^ y.second)).count() / N) < 1e-9, true, "bddCorrelation"); Rng r(a[3], 3, 3); double pr[NV]; for (auto &q : pr) q = r.in(0, 8) / 8.0; double s = 0; TT eq = ~(x.second ^ y.second); for (int k = 0; k < 1 << m.n; k++) if (eq[k]) { double q = 1; for (int i = 0; i < m.n; i++) q *= k >> i & 1 ? pr[i] : 1 - pr[i]; s += q; } m.same(fabs(Cudd_bddCorrelationWeights(m.dd, x.first, y.first, pr) - s) < 1e-9, true, "bddCorrelationWeights"); END
  OP("cubeArray", 'c', 1) vector<int> arr(m.n); TT t = ONE; for (int i = 0; i < m.n; i++) { arr[i] = (a[1] >> (2 * i)) & 3; if (arr[i] == 3) arr[i] = 2; if (arr[i] != 2) t &= arr[i] ? VARTT[i] : ~VARTT[i]; } m.exact(Cudd_CubeArrayToBdd(m.dd, arr.data()), t, "CubeArrayToBdd"); vector<int> b(m.n, 7); m.need(Cudd_BddToCubeArray(m.dd, m.pool.back().first, b.data()), "null: BddToCubeArray"); m.same(b == arr, true, "BddToCubeArray"); auto v = m.vs(a[2]); m.exact(Cudd_IndicesToCube(m.dd, v.data(), v.size()), m.cubeT(v), "IndicesToCube"); END
  // approximation and decomposition
  OP("approx", 'd', 5) auto x = m.F(a[1]), y = m.F(a[2]); int th = a[3] % 30, nv = a[4] & 1 ? m.n : 0, k = a[5] % 14; bool up = k & 1; double q = 0.5 + (a[4] >> 1 & 3) * 0.5; int safe = a[4] >> 3 & 1; DdNode *r = nullptr; const char *w = ""; switch (k / 2) { case 0: r = up ? Cudd_OverApprox(m.dd, x.first, nv, th, safe, q) : Cudd_UnderApprox(m.dd, x.first, nv, th, safe, q); w = "Under/OverApprox"; break; case 1: r = up ? Cudd_RemapOverApprox(m.dd, x.first, nv, th, q) : Cudd_RemapUnderApprox(m.dd, x.first, nv, th, q); w = "RemapUnder/OverApprox"; break; case 2: r = up ? Cudd_BiasedOverApprox(m.dd, x.first, y.first, nv, th, q, 1) : Cudd_BiasedUnderApprox(m.dd, x.first, y.first, nv, th, q, 1); w = "BiasedUnder/OverApprox"; break; case 3: r = up ? Cudd_SupersetHeavyBranch(m.dd, x.first, nv, th) : Cudd_SubsetHeavyBranch(m.dd, x.first, nv, th); w = "Sub/SupersetHeavyBranch"; break; case 4: r = up ? Cudd_SupersetShortPaths(m.dd, x.first, nv, th, safe) : Cudd_SubsetShortPaths(m.dd, x.first, nv, th, safe); w = "Sub/SupersetShortPaths"; break; case 5: r = up ? Cudd_SupersetCompress(m.dd, x.first, nv, th) : Cudd_SubsetCompress(m.dd, x.first, nv, th); w = "Sub/SupersetCompress"; break; default: { auto z = a[4] & 2 ? y : x; int dep = 1 + a[3] % 12; TT t = x.second & y.second; m.keep(Cudd_bddClippingAnd(m.dd, x.first, y.first, dep, up), [&](const TT &s) { return up ? leqT(t, s) : leqT(s, t); }, "bddClippingAnd"); auto v = m.vs(a[2]); DdNode *c = m.cube(v); TT t2 = exT(t, v); m.keep(Cudd_bddClippingAndAbstract(m.dd, x.first, y.first, c, dep, up), [&](const TT &s) { return up ? leqT(t2, s) : leqT(s, t2); }, "bddClippingAndAbstract"); m.drop(c); return; } } if (!r && (k / 2 == 4 || k / 2 == 5) && th <= 2 * m.n) { Cudd_ClearErrorCode(m.dd); return; } /* the threshold excludes every path */ m.keep(r, [&](const TT &t) { return up ? leqT(x.second, t) : leqT(t, x.second); }, w); END
  OP("decomp", 'd', 3) switch (a[2] % 8) { case 0: decomp(m, a, Cudd_bddApproxConjDecomp, true, "bddApproxConjDecomp"); break; case 1: decomp(m, a, Cudd_bddApproxDisjDecomp, false, "bddApproxDisjDecomp"); break; case 2: decomp(m, a, Cudd_bddIterConjDecomp, true, "bddIterConjDecomp"); break; case 3: decomp(m, a, Cudd_bddIterDisjDecomp, false, "bddIterDisjDecomp"); break; case 4: decomp(m, a, Cudd_bddGenConjDecomp, true, "bddGenConjDecomp"); break; case 5: decomp(m, a, Cudd_bddGenDisjDecomp, false, "bddGenDisjDecomp"); break; case 6: decomp(m, a, Cudd_bddVarConjDecomp, true, "bddVarConjDecomp"); break; default: decomp(m, a, Cudd_bddVarDisjDecomp, false, "bddVarDisjDecomp"); } END
  OP("mask", 'd', 1) auto x = m.F(a[1]); if (x.second.none()) return; auto p = shuffled(m.n, a[2]); vector<int> v(m.n); for (int i = 0; i < m.n; i++) v[i] = i; auto V = varsOf(m, v); int k = 1 + a[3] % m.n; vector<int> u(p.begin(), p.begin() + k); auto U = varsOf(m, u); m.keep(Cudd_SubsetWithMaskVars(m.dd, x.first, V.data(), m.n, U.data(), k), [&](const TT &t) { return leqT(t, x.second); }, "SubsetWithMaskVars"); END
  // order, memory
  OP("reorder", 'o', 5) m.need(Cudd_ReduceHeap(m.dd, REO[a[1] % (sizeof REO / sizeof *REO)], a[2] % 3), "null: ReduceHeap"); m.all("during reordering"); END
  OP("shuffle", 'o', 2) auto p = shuffled(m.n, a[1]); if (!m.grp.empty() && a[2] % 4) { for (int i = 0; i < m.n; i++) p[i] = Cudd_ReadInvPerm(m.dd, i); auto &g = m.grp[a[2] / 4 % m.grp.size()]; int l = m.lo(g), k = g.v.size(); if (a[2] % 4 == 1) { std::swap(p[l], p[l + 1 + a[3] % (k - 1)]); } else if (a[2] % 4 == 2 || m.n == k) std::reverse(p.begin() + l, p.begin() + l + k); else { vector<int> q(p.begin() + l, p.begin() + l + k); p.erase(p.begin() + l, p.begin() + l + k); p.insert(p.begin() + a[3] % (m.n - k + 1), q.begin(), q.end()); } }
    bool ok = true; for (auto &g : m.grp) { int l = 99, h = -1; for (int i = 0; i < m.n; i++) if (m.has(g.v, p[i])) l = std::min(l, i), h = std::max(h, i); ok &= h - l == (int)g.v.size() - 1; }
    bool had = Cudd_ReadTree(m.dd); if (!ok) { m.same(Cudd_ShuffleHeap(m.dd, p.data()) == 0, true, "ShuffleHeap that would break a group"); m.all("while a shuffle was refused"); return; }
    m.need(Cudd_ShuffleHeap(m.dd, p.data()), had ? "null: ShuffleHeap with groups" : "null: ShuffleHeap"); for (int i = 0; i < m.n; i++) m.same(Cudd_ReadInvPerm(m.dd, i) == p[i], true, "ShuffleHeap order"); m.regroup(); m.all("while the order was shuffled"); END
  OP("group", 'o', 2) if (m.n < 3) return; if (Cudd_ReadTree(m.dd) && a[5] % 4 == 0) { Cudd_FreeTree(m.dd); m.grp.clear(); return; }
    for (int k = 0; k < 1 + int(a[6] % 3); k++) { int sz = 2 + (a[2] >> k) % std::min(m.n - 1, 4), l = (a[1] + k * 3) % (m.n - sz + 1); CM::Grp g{{}, bool(a[3] >> k & 1)}; for (int i = l; i < l + sz; i++) g.v.push_back(Cudd_ReadInvPerm(m.dd, i)); bool cut = false, same = sz == m.n; for (auto &o : m.grp) { int c = m.common(o, g); if (c == sz && o.v.size() == g.v.size()) same = true; else if (c && c != sz && c != (int)o.v.size()) cut = true; } if (same) continue;
      bool r = Cudd_MakeTreeNode(m.dd, g.v[0], sz, g.fixed ? MTR_FIXED : MTR_DEFAULT); if (cut) m.same(r, false, "MakeTreeNode of a group that cuts another"); else { m.need(r, "null: MakeTreeNode"); m.grp.push_back(g); } }
    m.need(Cudd_ReduceHeap(m.dd, REO[a[4] % (sizeof REO / sizeof *REO)], 0), "null: ReduceHeap with groups"); m.all("during group reordering"); END
  OP("dyn", 'o', 1) if (a[1] & 1) { Cudd_AutodynEnable(m.dd, REO[2 + a[2] % 12]); Cudd_SetNextReordering(m.dd, Cudd_ReadKeys(m.dd) + a[3] % 30); } else Cudd_AutodynDisable(m.dd); END
  OP("cache", 'o', 1) if (a[1] & 1) Cudd_SetMinHit(m.dd, a[2] % 50); else Cudd_SetLooseUpTo(m.dd, a[2] % 2000); END
#undef OP
#undef END
}
#include "cudd_add.hpp"
#include "cudd_zdd.hpp"
static void initAll() { if (!ops().empty()) return; initOps(); initAddOps(); initZddOps(); }
static Case bddCase(uint64_t seed, int id, long i, bool th, const string &own) {
  initAll(); Rng r(seed, id, i); Case c; c.ext["_n"] = r.p(8) ? r.in(1, 3) : r.in(4, id == 22 ? 10 : id == 26 ? 7 : 8); c.ext["_slots"] = r.p(70) ? 2 : 64; c.ext["_cache"] = r.p(60) ? 8 : 512; c.ext["_loose"] = r.p(60) ? r.in(0, 200) : 0; c.ext["dyn"] = r.p(id == 22 ? 60 : 35) ? r.in(1, 12) : 0; c.ext["_next"] = r.in(5, 120); if (id == 26 && r.p(30)) c.ext["_bg"] = r.in(1, 3); if (id == 27) { int z = c.ext["_z"] = r.in(1, 2); c.ext["_n"] = z == 1 ? r.in(2, 7) : r.in(2, 4); c.ext["_dynz"] = r.p(35) ? r.in(1, 4) : 0; }
  vector<int> mine, other; for (size_t k = 0; k < ops().size(); k++) for (int w = 0; w < ops()[k].weight; w++) { if (own.find(ops()[k].group) != string::npos) mine.push_back(k); if (string(id == 27 ? "rbgZo" : id == 26 ? "rbgRo" : id == 22 ? "rbgR" : "rbg").find(ops()[k].group) != string::npos) for (int t = 0; t < ((id == 26 && ops()[k].group == 'R') || (id == 27 && ops()[k].group == 'Z') ? 4 : 1); t++) other.push_back(k); }
  int len = r.in(5, th ? 120 : 45); auto arg = [&]() { return r.p(25) ? r.upto(6) : r.upto(1 << 20); }; long gc = -1; for (size_t k = 0; k < ops().size(); k++) if (ops()[k].name == string("gc")) gc = k;
  for (int k = 0; k < len; k++) {
    if (k > 4 && r.p(15)) { // a recent operation again with one argument changed, often right after a garbage collection
      vector<long> o = c.ops[c.ops.size() - 1 - r.upto(std::min<size_t>(4, c.ops.size()))]; if (r.p(60)) c.ops.push_back({gc, 0, 0, 0, 0, 0, 0}); o[1 + r.upto(5)] = arg(); c.ops.push_back(o); continue; }
    vector<long> o; o.push_back(k < 4 ? other[r.upto(other.size())] : r.p(60) ? mine[r.upto(mine.size())] : other[r.upto(other.size())]); for (int j = 0; j < 6; j++) o.push_back(arg()); c.ops.push_back(o); }
  return c;
}
static Verdict bddEval(const Case &c, const string &own) {
  initAll(); return cu_child([&](Verdict &v) {
    CM m; m.v = &v; m.n = std::max(1L, c.ext.at("_n")); m.dd = Cudd_Init(m.n, 0, c.ext.at("_slots"), c.ext.at("_cache"), 0); m.need(m.dd, "null: Cudd_Init"); if (c.ext.at("_loose")) Cudd_SetLooseUpTo(m.dd, c.ext.at("_loose")); long dyn = c.ext.at("dyn"); if (dyn) { Cudd_AutodynEnable(m.dd, REO[2 + dyn]); Cudd_SetNextReordering(m.dd, c.ext.at("_next")); }
    Cudd_ReorderingType rt; DdNode *o = Cudd_ReadOne(m.dd); Cudd_Ref(o); m.push(o, ONE); Cudd_Ref(o); m.push(Cudd_Not(o), ZERO); if (m.n <= AN) { if (long bg = c.ext.count("_bg") ? c.ext.at("_bg") : 0) { DdNode *z = Cudd_addConst(m.dd, bg == 1 ? INF : bg); Cudd_Ref(z); Cudd_SetBackground(m.dd, z); } agreeBg = Cudd_V(Cudd_ReadBackground(m.dd)); for (int k = 0; k < 2; k++) { DdNode *z = k ? Cudd_ReadOne(m.dd) : Cudd_ReadZero(m.dd); Cudd_Ref(z); m.adds.push_back({z, VT(1 << AN, k)}); } } if (long z = c.ext.count("_z") ? c.ext.at("_z") : 0) { m.need(Cudd_zddVarsFromBddVars(m.dd, z), "null: zddVarsFromBddVars"); m.zn = z * m.n; m.same(Cudd_ReadZddSize(m.dd) == m.zn, true, "number of ZDD variables"); for (int k = 0; k < 2; k++) { DdNode *q = k ? Cudd_ReadOne(m.dd) : Cudd_ReadZero(m.dd); Cudd_Ref(q); TT t; t[0] = k; m.zs.push_back({q, t}); } if (long d = c.ext.at("_dynz")) { Cudd_AutodynEnableZdd(m.dd, ZREO[1 + d]); Cudd_SetNextReordering(m.dd, c.ext.at("_next")); } }
    int done = 0, k = 0; unsigned r0 = Cudd_ReadReorderings(m.dd); int g0 = Cudd_ReadGarbageCollections(m.dd);
    for (auto &op : c.ops) { const Op &x = ops()[op[0] % ops().size()]; m.rec = Cudd_ReadReorderings(m.dd) + Cudd_ReorderingStatus(m.dd, &rt); A a(op.begin(), op.end()); a.resize(8, 0);
      dprintf(1, "@op %s\n", x.name); try { x.f(m, a); } catch (string e) { size_t q = e.find(": "); if (q != string::npos) e.insert(q, string("-") + x.name); throw e + " (operation " + std::to_string(k) + " " + x.name + ")"; } if (own.find(x.group) != string::npos) { done++; v.tags.insert(string("op:") + x.name); } static const bool dbg = getenv("VERIF_DEBUGCHECK"); if (dbg && (Cudd_DebugCheck(m.dd) || Cudd_CheckKeys(m.dd))) throw string("debug-check: after operation ") + std::to_string(k); try { m.groups(); } catch (string e) { size_t q = e.find(": "); e.insert(q, string("-") + x.name); throw e + " (operation " + std::to_string(k) + " " + x.name + ")"; } if (k++ % 5 == 4) m.all((string("before operation ") + std::to_string(k)).c_str()); if (m.pool.size() > 24) m.release(2 + op[1] % 20, op[2] % 3); if (m.adds.size() > 24) { size_t z = 2 + op[1] % 20; DdNode *r = m.adds[z].first; m.adds.erase(m.adds.begin() + z); m.drop(r); } if (m.zs.size() > 24) { size_t z = 2 + op[1] % 20; DdNode *r = m.zs[z].first; m.zs.erase(m.zs.begin() + z); Cudd_RecursiveDerefZdd(m.dd, r); } }
    if (Cudd_ReadReorderings(m.dd) > r0) v.tags.insert("reordered"); if (Cudd_ReadGarbageCollections(m.dd) > g0) v.tags.insert("garbage-collected"); dprintf(1, "@op final\n"); m.audit(); int mx = 0; for (auto &p : m.pool) mx = std::max(mx, m.nodes(p.first)); if (own == "z") { mx = 0; for (auto &p : m.zs) mx = std::max(mx, Cudd_zddDagSize(p.first)); } if (own == "a") { mx = 0; for (auto &p : m.adds) mx = std::max(mx, m.nodes(p.first)); } v.nontrivial = done >= 3 && mx >= 6; v.sample = std::to_string(c.ops.size()) + " operations, largest diagram " + std::to_string(mx) + " nodes"; m.close(false);
  });
}
struct BddProp : Prop {
  int num; string own; long q; BddProp(int n, string o, long qn) : num(n), own(o), q(qn) { initAll(); }
  string id() override { return "C" + std::to_string(num); }
  string rule() override { return "A case is a random sequence of operations on a fresh manager (random sizes of tables and caches, with or without automatic reordering); non-trivial when at least three operations of this property's kind ran and a diagram had six or more nodes."; }
  long quickN() override { return q; } long thoroughN() override { return q * 100; }
  vector<string> requiredTags() override { vector<string> r{"reordered", "garbage-collected"}; for (auto &o : ops()) if (own.find(o.group) != string::npos) r.push_back(string("op:") + o.name); return r; }
  Case gen(uint64_t seed, long i, bool th) override { return bddCase(seed, num, i, th, own); }
  Verdict eval(const Case &c) override { return bddEval(c, own); }
};
static vector<Prop *> bddProps() { return {new BddProp(20, "b", 50000), new BddProp(21, "qn", 50000), new BddProp(22, "o", 30000), new BddProp(23, "m", 50000), new BddProp(24, "c", 50000), new BddProp(25, "d", 40000), new BddProp(26, "a", 40000), new BddProp(27, "z", 40000)}; }
