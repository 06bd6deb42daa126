// Algebraic decision diagrams as explicit tables of values over AN variables.
static const int AN = 7; static const double INF = INFINITY;
static bool okVal(double v) { return std::isinf(v) || (fabs(v) <= 1e6 && v * 1024 == floor(v * 1024)); } // values that arithmetic keeps exact
static bool okTab(const VT &t) { for (double v : t) if (std::isnan(v) || !okVal(v)) return false; return true; }
static bool finT(const VT &t) { for (double v : t) if (std::isinf(v)) return false; return true; }
static VT tabA(const std::function<double(int)> &f) { VT t(1 << AN); for (int a = 0; a < 1 << AN; a++) t[a] = f(a) + 0.0; return t; } // no negative zeros
static int setBit(int s, int v, int b) { return b ? s | 1 << v : s & ~(1 << v); }
static VT foldA(VT t, const vector<int> &vs, const std::function<double(double, double)> &op) { for (int v : vs) { VT u = t; t = tabA([&](int s) { return op(u[setBit(s, v, 1)], u[setBit(s, v, 0)]); }); } return t; }
static TT patT(const VT &t, const std::function<bool(double)> &f) { return tabulate([&](int s) { return f(t[s & ((1 << AN) - 1)]); }); }
struct AX { CM &m; // helpers of the operations below
  DdManager *dd() { return m.dd; }
  DdNode *var(int v) { return m.ref(Cudd_addIthVar(m.dd, v), "addIthVar"); } // referenced
  vector<DdNode *> vars(const vector<int> &v) { vector<DdNode *> r; for (int i : v) r.push_back(var(i)); return r; }
  void drop(const vector<DdNode *> &v) { for (auto *x : v) m.drop(x); }
  pair<DdNode *, VT> F(long k) { return m.adds[k % m.adds.size()]; }
  pair<DdNode *, VT> B(long k) { for (size_t i = 0; i < m.adds.size(); i++) { auto &x = m.adds[(k + i) % m.adds.size()]; bool ok = true; for (double v : x.second) ok &= v == 0 || v == 1; if (ok) return x; } m.fail("harness: no 0-1 diagram"); }
  DdNode *cst(double v) { return m.ref(Cudd_addConst(m.dd, v), "addConst"); }
  void push(DdNode *r, const VT &t) { m.adds.push_back({r, t}); }
  void exact(DdNode *r, const VT &t, const char *w) { m.ref(r, w); if (m.va(r) != t) m.fail(string("wrong-result: ") + w); push(r, t); }
  void near(DdNode *r, const VT &t, const char *w) { m.ref(r, w); VT q = m.va(r); for (size_t i = 0; i < t.size(); i++) if (!(q[i] == t[i] || fabs(q[i] - t[i]) < 1e-9 * (1 + fabs(t[i])))) m.fail(string("wrong-result: ") + w); m.drop(r); }
  void keep(DdNode *r, const std::function<bool(const VT &)> &ok, const char *w) { m.ref(r, w); VT t = m.va(r); if (!ok(t)) m.fail(string("wrong-result: ") + w); if (okTab(t)) push(r, t); else m.drop(r); }
  vector<int> pick(long mask, int most) { auto v = m.vs(mask); while ((int)v.size() > most) v.pop_back(); return v; }
  DdNode *cube(const vector<int> &v) { auto V = vars(v); DdNode *c = m.ref(Cudd_addComputeCube(m.dd, V.data(), nullptr, v.size()), "addComputeCube"); drop(V); return c; }
  DdNode *build(const vector<int> &v, size_t i, Rng &r, const vector<double> &val, VT &t) { if (i == v.size()) { double x = val[r.upto(val.size())]; t = VT(1 << AN, x); return cst(x); } VT a, b; DdNode *x = build(v, i + 1, r, val, a), *y = build(v, i + 1, r, val, b), *p = var(v[i]); DdNode *z = m.ref(Cudd_addIte(m.dd, p, x, y), "addIte"); t = tabA([&](int s) { return s >> v[i] & 1 ? a[s] : b[s]; }); m.drop(p); m.drop(x); m.drop(y); return z; }
  DdNode *table(const VT &t) { VT q; std::function<DdNode *(int, int)> g = [&](int v, int s) -> DdNode * { if (v < 0) return cst(t[s]); DdNode *x = g(v - 1, s | 1 << v), *y = g(v - 1, s), *p = var(v), *z = m.ref(Cudd_addIte(m.dd, p, x, y), "addIte"); m.drop(p); m.drop(x); m.drop(y); return z; }; return g(m.n - 1, 0); }
};
struct AOper { const char *name; DD_AOP op; bool bin; std::function<double(double, double)> f; };
static double agreeBg = 0;
static const vector<AOper> &aopers() { static vector<AOper> o = {
  {"Plus", Cudd_addPlus, false, [](double a, double b) { return a + b; }}, {"Times", Cudd_addTimes, false, [](double a, double b) { return a == 0 || b == 0 ? 0 : a * b; }}, {"Threshold", Cudd_addThreshold, false, [](double a, double b) { return a >= b ? a : 0; }}, {"SetNZ", Cudd_addSetNZ, false, [](double a, double b) { return b != 0 ? b : a; }},
  {"Divide", Cudd_addDivide, false, [](double a, double b) { return a == 0 ? 0 : a / b; }}, {"Minus", Cudd_addMinus, false, [](double a, double b) { return a == b ? 0 : a - b; }}, {"Minimum", Cudd_addMinimum, false, [](double a, double b) { return std::min(a, b); }}, {"Maximum", Cudd_addMaximum, false, [](double a, double b) { return std::max(a, b); }},
  {"OneZeroMaximum", Cudd_addOneZeroMaximum, false, [](double a, double b) { return a > b; }}, {"Diff", Cudd_addDiff, false, [](double a, double b) { return a == b ? INF : std::min(a, b); }}, {"Agreement", Cudd_addAgreement, false, [](double a, double b) { return a == b ? a : agreeBg; }},
  {"Or", Cudd_addOr, true, [](double a, double b) { return a || b; }}, {"Nand", Cudd_addNand, true, [](double a, double b) { return !(a && b); }}, {"Nor", Cudd_addNor, true, [](double a, double b) { return !(a || b); }}, {"Xor", Cudd_addXor, true, [](double a, double b) { return a != b; }}, {"Xnor", Cudd_addXnor, true, [](double a, double b) { return a == b; }},
  {"Equals", Cudd_addEquals, false, [](double a, double b) { return a == b; }}, {"NotEquals", Cudd_addNotEquals, false, [](double a, double b) { return a != b; }}, {"GreaterThan", Cudd_addGreaterThan, false, [](double a, double b) { return a > b; }}, {"GreaterThanEquals", Cudd_addGreaterThanEquals, false, [](double a, double b) { return a >= b; }}, {"LessThan", Cudd_addLessThan, false, [](double a, double b) { return a < b; }}, {"LessThanEquals", Cudd_addLessThanEquals, false, [](double a, double b) { return a <= b; }},
  {"Pow", Cudd_addPow, false, [](double a, double b) { return b == 0 ? 1 : pow(a, b); }}, {"Mod", Cudd_addMod, false, [](double a, double b) -> double { if (!(b >= 1) || std::isinf(a) || std::isinf(b)) return NAN; long x = (long)a % (long)b; return double(x < 0 ? x + (long)b : x); }}, {"LogXY", Cudd_addLogXY, false, [](double a, double b) -> double { if (b <= 0 || b == 1 || std::isinf(b) || a < 0) return NAN; return a == INF ? INF : a == 0 ? -INF : log(a) / log(b); }}};
  return o; }
static void initAddOps() {
  auto O = [](const char *n, char g, int w, std::function<void(AX &, const A &)> f) { ops().push_back({n, g, w, [f](CM &m, const A &a) { if (m.n > AN) return; AX x{m}; f(x, a); }}); };
#define OP(name, g, w) O(name, g, w, [](AX &x, const A &a) { CM &m = x.m; (void)m;
#define END });
  OP("addRandom", 'R', 8) auto v = x.pick(a[1], 6); if (a[5] % 3 == 0) v = x.pick(-1, 6); auto p = shuffled(v.size(), a[2]); vector<int> w; for (int i : p) w.push_back(v[i]); Rng r(a[3], 5, 6); vector<double> val; switch (a[4] % 6) { case 0: case 1: val = {0, 1}; break; case 2: val = {0, 1, 2, 3}; break; case 3: val = {-2, -1, 0, 1, 2, 0.5}; break; case 4: val = {0, 0, 0, 4, 7, 12, 0.25}; break; default: val = {1, 2, INF, 5}; } VT t; DdNode *z = x.build(w, 0, r, val, t); if (m.va(z) != t) m.fail("wrong-result: addIte (bottom-up construction)"); x.push(z, t); END
  OP("addConst", 'R', 1) double c = (int)(a[1] % 33 - 16) / 4.0; x.exact(Cudd_addConst(m.dd, c), VT(1 << AN, c), "addConst"); END
  OP("addVar", 'R', 1) int v = a[1] % m.n; x.exact(Cudd_addIthVar(m.dd, v), tabA([&](int s) { return s >> v & 1; }), "addIthVar"); END
  OP("addRelease", 'R', 4) if (m.adds.size() > 6) { size_t i = 2 + a[1] % (m.adds.size() - 2); DdNode *r = m.adds[i].first; m.adds.erase(m.adds.begin() + i); m.drop(r); } END
  OP("addApply", 'a', 24) auto &o = aopers()[a[3] % aopers().size()]; auto f = o.bin ? x.B(a[1]) : x.F(a[1]), g = o.bin ? x.B(a[2]) : x.F(a[2]); VT t = tabA([&](int s) { return o.f(f.second[s], g.second[s]); }); for (double d : t) if (std::isnan(d)) return; string w = string("add") + o.name; if (!okTab(t)) { bool big = false; for (double d : t) big |= !std::isinf(d) && fabs(d) > 1e12; if (!big && o.op != Cudd_addMinus) x.near(Cudd_addApply(m.dd, o.op, f.first, g.first), t, w.c_str()); return; } x.exact(Cudd_addApply(m.dd, o.op, f.first, g.first), t, w.c_str()); END
  OP("addLog", 'a', 1) auto f = x.F(a[1]); for (double d : f.second) if (!(d > 0)) return; x.near(Cudd_addMonadicApply(m.dd, Cudd_addLog, f.first), tabA([&](int s) { return log(f.second[s]); }), "addLog"); END
  OP("addMonadic", 'a', 4) auto f = x.F(a[1]); switch (a[2] % 3) { case 0: x.exact(Cudd_addCmpl(m.dd, f.first), tabA([&](int s) { return f.second[s] == 0; }), "addCmpl"); break; case 1: x.exact(Cudd_addNegate(m.dd, f.first), tabA([&](int s) { return f.second[s] == 0 ? 0 : -f.second[s]; }), "addNegate"); break; default: { int N = a[3] % 3; double p = N == 0 ? 1 : N == 1 ? 10 : 100; if (!finT(f.second)) return; VT t = tabA([&](int s) { return floor(f.second[s] * p + 0.5) / p; }); if (N == 0) x.exact(Cudd_addRoundOff(m.dd, f.first, N), t, "addRoundOff"); else x.near(Cudd_addRoundOff(m.dd, f.first, N), t, "addRoundOff"); } } END
  OP("addFind", 'a', 2) auto f = x.F(a[1]); VT l = f.second; x.exact(Cudd_addFindMax(m.dd, f.first), VT(1 << AN, *std::max_element(l.begin(), l.end())), "addFindMax"); x.exact(Cudd_addFindMin(m.dd, f.first), VT(1 << AN, *std::min_element(l.begin(), l.end())), "addFindMin"); END
  OP("addIthBit", 'a', 3) auto f = x.F(a[1]); if (!finT(f.second)) return; int b = a[2] % 8; auto bit = [&](double d) { return bool((int)d >> b & 1); }; if (a[3] & 1) x.exact(Cudd_addIthBit(m.dd, f.first, b), tabA([&](int s) { return bit(f.second[s]); }), "addIthBit"); else m.exact(Cudd_addBddIthBit(m.dd, f.first, b), patT(f.second, bit), "addBddIthBit"); END
  OP("addScalarInverse", 'a', 1) auto f = x.F(a[1]); double e = a[2] % 3 == 0 ? 1.5 : a[2] % 3 == 1 ? 0.375 : 0.0625; DdNode *ep = x.cst(e); bool small = false; for (double d : f.second) small |= fabs(d) < e; DdNode *r = Cudd_addScalarInverse(m.dd, f.first, ep); if (small) m.same(r == nullptr, true, "addScalarInverse with a value below epsilon"); else x.near(r, tabA([&](int s) { return 1 / f.second[s]; }), "addScalarInverse"); m.drop(ep); END
  OP("addIte", 'a', 4) auto f = x.B(a[1]), g = x.F(a[2]), h = x.F(a[3]); if (a[4] % 6 == 0) g = f; if (a[4] % 6 == 1) h = f; VT t = tabA([&](int s) { return f.second[s] ? g.second[s] : h.second[s]; }); x.exact(Cudd_addIte(m.dd, f.first, g.first, h.first), t, "addIte"); END
  OP("addIteConstant", 'a', 3) auto f = x.B(a[1]), g = x.F(a[2]), h = x.F(a[3]); if (a[4] % 2) { VT q = tabA([&](int s) { return f.second[s] ? 3 : s & 1; }); DdNode *z = x.table(q); x.push(z, q); g = {z, q}; } VT t = tabA([&](int s) { return f.second[s] ? g.second[s] : h.second[s]; }); bool c = std::count(t.begin(), t.end(), t[0]) == (long)t.size(); DdNode *r = Cudd_addIteConstant(m.dd, f.first, g.first, h.first); m.need(r, "null: addIteConstant"); if (r == (DdNode *)1) m.same(c, false, "addIteConstant misses a constant"); else m.same(m.va(r) == t, true, "addIteConstant"); END
  OP("addEvalConst", 'a', 3) auto f = x.B(a[1]), g = x.F(a[2]); if (a[4] % 2) { VT q = tabA([&](int s) { return f.second[s] ? 3 : (s & (1 << m.n) - 1) % 3; }); DdNode *z = x.table(q); x.push(z, q); g = {z, q}; } set<double> s; for (int i = 0; i < 1 << AN; i++) if (f.second[i]) s.insert(g.second[i]); DdNode *r = Cudd_addEvalConst(m.dd, f.first, g.first); m.need(r, "null: addEvalConst"); bool fc = std::count(f.second.begin(), f.second.end(), 1.0) == 1 << AN, gc = std::count(g.second.begin(), g.second.end(), g.second[0]) == 1 << AN; if (fc || gc) { m.same(r == g.first, true, "addEvalConst"); return; } if (r != (DdNode *)1 && Cudd_IsConstant(r)) m.same(s.empty() ? r == Cudd_ReadBackground(m.dd) : s.size() == 1 && Cudd_V(r) == *s.begin(), true, "addEvalConst"); else m.same(s.size() > 1, true, "addEvalConst misses a constant"); END
  OP("addLeq", 'a', 2) auto f = x.F(a[1]), g = x.F(a[2]); bool b = true; for (int s = 0; s < 1 << AN; s++) b &= f.second[s] <= g.second[s]; m.same(Cudd_addLeq(m.dd, f.first, g.first), b, "addLeq"); DdNode *r = m.ref(Cudd_addApply(m.dd, Cudd_addMinimum, f.first, g.first), "addMinimum"); m.same(Cudd_addLeq(m.dd, r, g.first), true, "addLeq(min(f,g), g)"); m.drop(r); END
  OP("EqualSupNorm", 'a', 3) auto f = x.F(a[1]), g = x.F(a[2]); if (!finT(f.second)) return; if (a[4] % 2) { Rng r(a[3], 8, 8); VT q = f.second; double d = r.p(50) ? 0.5 : 0.25; int k = 1 << r.upto(m.n); q = tabA([&](int s) { return f.second[s] + (s & k ? d : 0); }); if (!okTab(q)) return; DdNode *z = x.table(q); x.push(z, q); g = {z, q}; } double w = 0; for (int s = 0; s < 1 << AN; s++) w = std::max(w, fabs(f.second[s] - g.second[s])); static const double tol[] = {0.3, 0.7, 1.3, 0.1, 4.1, 0}; for (int k = 0; k < 3; k++) { double e = tol[(a[5] >> 3 * k) % 6]; m.same(Cudd_EqualSupNorm(m.dd, f.first, g.first, e, 0), w <= e, "EqualSupNorm"); } END
  OP("addEval", 'a', 1) auto f = x.F(a[1]); int in[NV]; int k = a[2] & ((1 << m.n) - 1); for (int i = 0; i < NV; i++) in[i] = k >> i & 1; DdNode *r = Cudd_Eval(m.dd, f.first, in); m.need(r && Cudd_IsConstant(r), "null: Eval"); m.same(Cudd_V(r) == f.second[k], true, "Eval"); END
  OP("toBdd", 'a', 4) auto f = x.F(a[1]); double v = f.second[a[2] & ((1 << m.n) - 1)], u = f.second[a[3] & ((1 << m.n) - 1)]; if (std::isinf(v) || std::isinf(u)) return; switch (a[4] % 4) { case 0: m.exact(Cudd_addBddThreshold(m.dd, f.first, v), patT(f.second, [&](double d) { return d >= v; }), "addBddThreshold"); break; case 1: m.exact(Cudd_addBddStrictThreshold(m.dd, f.first, v), patT(f.second, [&](double d) { return d > v; }), "addBddStrictThreshold"); break; case 2: m.exact(Cudd_addBddInterval(m.dd, f.first, std::min(u, v), std::max(u, v)), patT(f.second, [&](double d) { return d >= std::min(u, v) && d <= std::max(u, v); }), "addBddInterval"); break; default: m.exact(Cudd_addBddPattern(m.dd, f.first), patT(f.second, [&](double d) { return d != 0; }), "addBddPattern"); } END
  OP("BddToAdd", 'a', 3) auto f = m.F(a[1]); x.exact(Cudd_BddToAdd(m.dd, f.first), tabA([&](int s) { return f.second[s]; }), "BddToAdd"); END
  OP("addCompose", 'a', 2) auto f = x.F(a[1]), g = x.B(a[2]); int v = a[3] % m.n; x.exact(Cudd_addCompose(m.dd, f.first, g.first, v), tabA([&](int s) { return f.second[setBit(s, v, g.second[s])]; }), "addCompose"); END
  OP("addPermute", 'a', 2) auto f = x.F(a[1]); auto p = shuffled(m.n, a[2]); x.exact(Cudd_addPermute(m.dd, f.first, p.data()), tabA([&](int s) { int b = 0; for (int i = 0; i < m.n; i++) b |= (s >> p[i] & 1) << i; return f.second[b]; }), "addPermute"); END
  OP("addSwapVariables", 'a', 2) auto f = x.F(a[1]); auto p = shuffled(m.n, a[2]); int k = m.n / 2; if (k < 1) return; k = 1 + a[3] % k; vector<int> X(p.begin(), p.begin() + k), Y(p.begin() + k, p.begin() + 2 * k); auto VX = x.vars(X), VY = x.vars(Y); x.exact(Cudd_addSwapVariables(m.dd, f.first, VX.data(), VY.data(), k), tabA([&](int s) { int b = s; for (int i = 0; i < k; i++) { b = setBit(b, X[i], s >> Y[i] & 1); b = setBit(b, Y[i], s >> X[i] & 1); } return f.second[b]; }), "addSwapVariables"); x.drop(VX); x.drop(VY); END
  OP("addVectorCompose", 'a', 5) auto f = x.F(a[1]); Rng r(a[2], 9, 9); vector<DdNode *> on, off; vector<VT> t; vector<bool> sub(m.n, false); int how = a[3] % 3; for (int i = 0; i < m.n; i++) sub[i] = r.p(50); for (int i = 0; i < m.n; i++) { DdNode *z = nullptr; VT q; if (sub[i]) { auto y = x.B(r.upto(1000)); bool dep = false; for (int j = 0; j < m.n; j++) if (sub[j]) for (int s = 0; s < 1 << AN; s++) dep |= y.second[s] != y.second[s ^ 1 << j]; if (how != 2 || !dep) { z = y.first; q = y.second; Cudd_Ref(z); } } if (!z) { sub[i] = false; z = x.var(i); q = tabA([&](int s) { return s >> i & 1; }); } on.push_back(z); t.push_back(q); }
    if (how == 1) for (int i = 0; i < m.n; i++) off.push_back(m.ref(Cudd_addCmpl(m.dd, on[i]), "addCmpl")); VT z = tabA([&](int s) { int b = 0; for (int i = 0; i < m.n; i++) b |= int(t[i][s]) << i; return f.second[b]; }); if (how == 1 && !finT(f.second)) how = 0; // the general composition multiplies by 0 and adds
    if (how == 0) x.exact(Cudd_addVectorCompose(m.dd, f.first, on.data()), z, "addVectorCompose"); else if (how == 1) x.exact(Cudd_addGeneralVectorCompose(m.dd, f.first, on.data(), off.data()), z, "addGeneralVectorCompose"); else x.exact(Cudd_addNonSimCompose(m.dd, f.first, on.data()), z, "addNonSimCompose"); x.drop(on); x.drop(off); END
  OP("addConstrain", 'a', 4) auto f = x.F(a[1]), c = x.B(a[2]); if (std::count(c.second.begin(), c.second.end(), 1.0) == 0) return; auto ok = [&](const VT &t) { for (int s = 0; s < 1 << AN; s++) if (c.second[s] && t[s] != f.second[s]) return false; return true; }; if (a[3] & 1) x.keep(Cudd_addConstrain(m.dd, f.first, c.first), ok, "addConstrain"); else { DdNode *r = Cudd_addRestrict(m.dd, f.first, c.first); m.need(r, "null: addRestrict"); m.same(Cudd_DagSize(r) <= Cudd_DagSize(f.first), true, "addRestrict is larger than its operand"); x.keep(r, ok, "addRestrict"); } END
  OP("addAbstract", 'a', 6) auto v = x.pick(a[2], 4); int k = a[3] % 4; auto f = k == 2 ? x.B(a[1]) : x.F(a[1]); VT t; switch (k) { case 0: t = foldA(f.second, v, [](double p, double q) { return p + q; }); break; case 1: t = foldA(f.second, v, [](double p, double q) { return p == 0 || q == 0 ? 0 : p * q; }); break; case 2: t = foldA(f.second, v, [](double p, double q) { return p || q; }); break; default: t = foldA(f.second, v, [](double p, double q) { return std::min(p, q); }); } if (!okTab(t)) return; DdNode *c = x.cube(v); x.exact(k == 0 ? Cudd_addExistAbstract(m.dd, f.first, c) : k == 1 ? Cudd_addUnivAbstract(m.dd, f.first, c) : k == 2 ? Cudd_addOrAbstract(m.dd, f.first, c) : Cudd_addMinAbstract(m.dd, f.first, c), t, k == 0 ? "addExistAbstract" : k == 1 ? "addUnivAbstract" : k == 2 ? "addOrAbstract" : "addMinAbstract"); m.drop(c); END
  OP("matrix", 'a', 6) auto f = x.F(a[1]), g = x.F(a[2]); auto z = x.pick(a[3], 4); int k = a[4] % 3; VT t = tabA([&](int s) { return k == 2 ? f.second[s] + g.second[s] : f.second[s] == 0 || g.second[s] == 0 ? 0 : f.second[s] * g.second[s]; }); t = foldA(t, z, [&](double p, double q) { return k == 2 ? std::min(p, q) : p + q; }); if (!okTab(t)) return; for (double d : f.second) if (d == -INF) return; for (double d : g.second) if (d == -INF) return; auto Z = x.vars(z); x.exact(k == 0 ? Cudd_addMatrixMultiply(m.dd, f.first, g.first, Z.data(), z.size()) : k == 1 ? Cudd_addTimesPlus(m.dd, f.first, g.first, Z.data(), z.size()) : Cudd_addTriangle(m.dd, f.first, g.first, Z.data(), z.size()), t, k == 0 ? "addMatrixMultiply" : k == 1 ? "addTimesPlus" : "addTriangle"); x.drop(Z); END
  OP("addOuterSum", 'a', 2) auto f = x.F(a[1]), r = x.F(a[2]), c = x.F(a[3]); for (auto *q : {&f, &r, &c}) for (double d : q->second) if (d == -INF) return; VT t = tabA([&](int s) { return std::min(f.second[s], r.second[s] + c.second[s]); }); if (!okTab(t)) return; x.exact(Cudd_addOuterSum(m.dd, f.first, r.first, c.first), t, "addOuterSum"); END
  OP("addMake", 'a', 4) auto p = shuffled(m.n, a[1]); int k = m.n / 2; if (a[2] % 4 == 3) { int n = 1 + a[3] % m.n, md = 2 + a[4] % 6, top = a[5] % (m.n - n + 1), opt = a[6] % 4; bool msb = opt & CUDD_RESIDUE_MSB, tc = opt & CUDD_RESIDUE_TC; x.exact(Cudd_addResidue(m.dd, n, md, opt, top), tabA([&](int s) { long v = 0; for (int j = 0; j < n; j++) { int ix = msb ? top + n - j - 1 : top + j; if (s >> ix & 1) v += tc && j == n - 1 ? -(1L << j) : 1L << j; } return ((v % md) + md) % md; }), tc ? "addResidue (two's complement)" : "addResidue"); return; }
    if (k < 1) return; k = 1 + a[3] % k; vector<int> X(p.begin(), p.begin() + k), Y(p.begin() + k, p.begin() + 2 * k); auto VX = x.vars(X), VY = x.vars(Y); auto cnt = [&](int s, int mode) { int c = 0; for (int i = 0; i < k; i++) { int u = s >> X[i] & 1, w = s >> Y[i] & 1; c += mode ? u && w : u != w; } return c; }; switch (a[2] % 4) { case 0: x.exact(Cudd_addWalsh(m.dd, VX.data(), VY.data(), k), tabA([&](int s) { return cnt(s, 1) % 2 ? -1 : 1; }), "addWalsh"); break; case 1: x.exact(Cudd_addXeqy(m.dd, k, VX.data(), VY.data()), tabA([&](int s) { return cnt(s, 0) == 0; }), "addXeqy"); break; default: { auto BX = varsOf(m, X), BY = varsOf(m, Y); x.exact(Cudd_addHamming(m.dd, BX.data(), BY.data(), k), tabA([&](int s) { return cnt(s, 0); }), "addHamming"); } } x.drop(VX); x.drop(VY); END
  OP("addCube", 'a', 1) auto v = m.vs(a[1]); auto V = x.vars(v); vector<int> ph; for (int i : v) ph.push_back(a[2] >> i & 1); x.exact(Cudd_addComputeCube(m.dd, V.data(), ph.data(), v.size()), tabA([&](int s) { for (size_t i = 0; i < v.size(); i++) if ((s >> v[i] & 1) != ph[i]) return 0; return 1; }), "addComputeCube"); x.drop(V); END
  OP("addCofactor", 'a', 2) auto f = x.F(a[1]); auto v = m.vs(a[2]); auto V = x.vars(v); vector<int> ph; for (int i : v) ph.push_back(a[3] >> i & 1); DdNode *c = m.ref(Cudd_addComputeCube(m.dd, V.data(), ph.data(), v.size()), "addComputeCube"); x.drop(V); x.exact(Cudd_Cofactor(m.dd, f.first, c), tabA([&](int s) { for (size_t i = 0; i < v.size(); i++) s = setBit(s, v[i], ph[i]); return f.second[s]; }), "Cofactor of an ADD"); m.drop(c); END
  OP("addCount", 'a', 4) auto f = x.F(a[1]); double bg = Cudd_V(Cudd_ReadBackground(m.dd)); long c = 0; set<double> val; set<int> sup; double nz = 0; for (int s = 0; s < 1 << m.n; s++) { c += f.second[s] != bg; val.insert(f.second[s]); for (int i = 0; i < m.n; i++) if (f.second[s] != f.second[s ^ 1 << i]) sup.insert(i); }
    m.same(Cudd_CountMinterm(m.dd, f.first, m.n) == c, true, "CountMinterm of an ADD"); m.same(Cudd_CountLeaves(f.first) == (int)val.size(), true, "CountLeaves of an ADD"); m.same(Cudd_SupportSize(m.dd, f.first) == (int)sup.size(), true, "SupportSize of an ADD"); int *ix = nullptr; int k = Cudd_SupportIndices(m.dd, f.first, &ix); set<int> got(ix, ix + k); if (ix) free(ix); m.same(got == sup, true, "SupportIndices of an ADD");
    set<DdNode *> nodes; double paths = 0; std::function<void(DdNode *)> g = [&](DdNode *q) { nodes.insert(q); if (Cudd_IsConstant(q)) { paths++; nz += Cudd_V(q) != 0; return; } g(Cudd_T(q)); g(Cudd_E(q)); }; g(f.first); m.same(Cudd_DagSize(f.first) == (int)nodes.size(), true, "DagSize of an ADD"); m.same(Cudd_CountPath(f.first) == paths, true, "CountPath of an ADD"); m.same(Cudd_CountPathsToNonZero(f.first) == nz, true, "CountPathsToNonZero of an ADD"); m.same(fabs(Cudd_Density(m.dd, f.first, m.n) - (double)c / nodes.size()) < 1e-9, true, "Density of an ADD"); END
  OP("addCubes", 'a', 3) auto f = x.F(a[1]); double bg = Cudd_V(Cudd_ReadBackground(m.dd)); int *cb; CUDD_VALUE_TYPE val; DdGen *g = Cudd_FirstCube(m.dd, f.first, &cb, &val); m.need(g, "null: FirstCube"); VT t(1 << m.n, bg); vector<bool> seen(1 << m.n, false); int cnt = 0; while (!Cudd_IsGenEmpty(g)) { if (val == bg) m.fail("wrong-result: FirstCube/NextCube lists a cube of the background"); for (int s = 0; s < 1 << m.n; s++) { bool in = true; for (int i = 0; i < m.n; i++) in &= cb[i] == 2 || cb[i] == (s >> i & 1); if (in) { if (seen[s]) m.fail("wrong-result: FirstCube/NextCube give overlapping cubes"); seen[s] = true; t[s] = val; } } if (++cnt > 1024) m.fail("wrong-result: cube enumeration does not end"); if (!Cudd_NextCube(g, &cb, &val)) break; } Cudd_GenFree(g); for (int s = 0; s < 1 << m.n; s++) m.same(t[s] == f.second[s], true, "FirstCube/NextCube of an ADD"); END
  OP("addRead", 'a', 3) int lx = (m.n + 1) / 2, ly = m.n / 2; Rng r(a[1], 4, 4); int R = 1 + r.upto(1 << lx), C = 1 + r.upto(1 << ly); bool bdd = a[2] & 1, swap = a[3] & 1; if (swap) { std::swap(lx, ly); std::swap(R, C); } map<pair<int, int>, double> e; std::ostringstream o; o << R << " " << C << "\n"; int k = r.upto(9); for (int i = 0; i < k; i++) { int u = r.upto(R), v = r.upto(C); double d = (int)r.in(-8, 8) / 4.0; e[{u, v}] = d; o << u << " " << v; if (!bdd) o << " " << d; o << "\n"; } string txt = o.str(); FILE *fp = fmemopen((void *)txt.data(), txt.size(), "r"); DdNode *E = nullptr, **X = nullptr, **Y = nullptr, **xn = nullptr, **yn = nullptr; int nx = 0, ny = 0, mm = 0, nn = 0; int bx = swap ? 1 : 0, by = swap ? 0 : 1; int ok = bdd ? Cudd_bddRead(fp, m.dd, &E, &X, &Y, &nx, &ny, &mm, &nn, bx, 2, by, 2) : Cudd_addRead(fp, m.dd, &E, &X, &Y, &xn, &yn, &nx, &ny, &mm, &nn, bx, 2, by, 2); fclose(fp); m.need(ok && E, bdd ? "null: bddRead" : "null: addRead"); m.same(mm == R && nn == C, true, "size of the matrix that was read"); auto bits = [](int q) { int b = 0; for (q--; q > 0; q >>= 1) b++; return b; }; m.same(nx == bits(R) && ny == bits(C), true, "variables of the matrix that was read");
    double bg = bdd ? 0 : Cudd_V(Cudd_ReadBackground(m.dd)); auto at = [&](int s) { int u = 0, v = 0; for (int i = 0; i < nx; i++) u = 2 * u + (s >> (bx + 2 * i) & 1); for (int i = 0; i < ny; i++) v = 2 * v + (s >> (by + 2 * i) & 1); auto it = e.find({u, v}); return it == e.end() ? bg : bdd ? 1 : it->second; };
    if (bdd) { TT t = tabulate([&](int s) { return at(s) == 1; }); if (m.tt(E) != t) m.fail("wrong-result: bddRead"); m.push(E, t); } else { VT t = tabA([&](int s) { return at(s); }); if (m.va(E) != t) m.fail("wrong-result: addRead"); x.push(E, t); }
    for (int i = 0; i < nx; i++) { m.drop(X[i]); if (!bdd) m.drop(xn[i]); } for (int i = 0; i < ny; i++) { m.drop(Y[i]); if (!bdd) m.drop(yn[i]); } free(X); free(Y); free(xn); free(yn); END
  ops().push_back({"newvar", 'o', 1, [](CM &m, const A &a) { if (m.n >= NV || m.zn || Cudd_ReadTree(m.dd) || a[4] % 2) return; vector<int> old; for (int i = 0; i < m.n; i++) old.push_back(Cudd_ReadInvPerm(m.dd, i)); int l = a[1] % (m.n + 1), how = a[2] % 3; if (how == 2) l = m.n; bool add = a[3] & 1; Cudd_ReorderingType rt; bool dyn = Cudd_ReorderingStatus(m.dd, &rt); int r0 = Cudd_ReadReorderings(m.dd);
    DdNode *x = how == 0 ? Cudd_bddNewVarAtLevel(m.dd, l) : how == 1 ? Cudd_addNewVarAtLevel(m.dd, l) : add ? Cudd_addNewVar(m.dd) : Cudd_bddNewVar(m.dd); m.need(x, "null: NewVar"); int k = m.n++; m.same(Cudd_ReadSize(m.dd) == m.n && (int)Cudd_NodeReadIndex(x) == k, true, "index of a new variable"); if (!dyn || Cudd_ReadReorderings(m.dd) == r0) { old.insert(old.begin() + l, k); for (int i = 0; i < m.n; i++) m.same(Cudd_ReadInvPerm(m.dd, i) == old[i], true, "order after a new variable was added"); }
    if (how == 1 || (how == 2 && add)) { Cudd_Ref(x); m.same(Cudd_V(Cudd_T(x)) == 1 && Cudd_V(Cudd_E(x)) == 0, true, "children of a new ADD variable"); m.drop(x); } m.exact(Cudd_bddIthVar(m.dd, k), VARTT[k], "new variable"); m.all("while a variable was added"); m.canon(); }});
#undef OP
#undef END
}
