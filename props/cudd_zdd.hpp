// Zero-suppressed diagrams as explicit families of sets over zn elements: bit a of the table says whether the set a is in the family.
// Covers (two elements per variable) are families of cubes: element 2i is the literal v_i, element 2i+1 its negation.
struct ZX { CM &m; DdManager *dd() { return m.dd; }
  pair<DdNode *, TT> F(long k) { return m.zs[k % m.zs.size()]; }
  static bool cubeOk(int s) { return !(s & (s >> 1) & 0x155); }
  bool isCover(const TT &t) { for (int s = 0; s < 1 << m.zn; s++) if (t[s] && !cubeOk(s)) return false; return true; }
  pair<DdNode *, TT> C(long k) { for (size_t i = 0; i < m.zs.size(); i++) { auto &x = m.zs[(k + i) % m.zs.size()]; if (isCover(x.second)) return x; } m.fail("harness: no cover"); }
  TT cube(int s) { TT t = ONE; for (int i = 0; i < m.n; i++) { if (s >> 2 * i & 1) t &= VARTT[i]; if (s >> (2 * i + 1) & 1) t &= ~VARTT[i]; } return t; }
  TT func(const TT &c) { TT t; for (int s = 0; s < 1 << m.zn; s++) if (c[s]) t |= cube(s); return t; }
  vector<int> sets(const TT &t) { vector<int> r; for (int s = 0; s < 1 << m.zn; s++) if (t[s]) r.push_back(s); return r; }
  void exact(DdNode *r, const TT &t, const char *w) { m.ref(r, w); if (m.zt(r) != t) m.fail(string("wrong-result: ") + w); m.zs.push_back({r, t}); }
  DdNode *set(int s) { DdNode *z = Cudd_ReadOne(m.dd); Cudd_Ref(z); vector<int> v; for (int i = 0; i < m.zn; i++) if (s >> i & 1) v.push_back(i); for (int i : v) { DdNode *y = m.ref(Cudd_zddChange(m.dd, z, i), "zddChange"); Cudd_RecursiveDerefZdd(m.dd, z); z = y; } return z; }
  void isop(DdNode *b, DdNode *z, const TT &l, const TT &u, const char *w) { // references both, checks and keeps them
    m.ref(b, w); TT f = m.tt(b); if (z) m.ref(z, w); if (!leqT(l, f) || !leqT(f, u)) m.fail(string("wrong-result: ") + w + " leaves the interval"); if (z) { TT c = m.zt(z); if (!isCover(c) || func(c) != f) m.fail(string("wrong-result: the cover of ") + w); irred(c, l, w); for (int s : sets(c)) for (int e = 0; e < m.zn; e++) if (s >> e & 1 && leqT(cube(s ^ 1 << e), u)) m.fail(string("wrong-result: a cube of ") + w + " is not prime"); m.zs.push_back({z, c}); } m.push(b, f); }
  void irred(const TT &c, const TT &l, const char *w) { auto v = sets(c); for (int s : v) { TT r; for (int q : v) if (q != s) r |= cube(q); if (leqT(l, r)) m.fail(string("wrong-result: a cube of ") + w + " is redundant"); } }
};
static const Cudd_ReorderingType ZREO[] = {CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV};
static void initZddOps() {
  auto O = [](const char *n, char g, int w, std::function<void(ZX &, const A &)> f) { ops().push_back({n, g, w, [f](CM &m, const A &a) { if (!m.zn) return; ZX x{m}; f(x, a); }}); };
  auto mode = [](CM &m) { return m.zn / m.n; }; (void)mode;
#define OP(name, g, w) O(name, g, w, [](ZX &x, const A &a) { CM &m = x.m; DdManager *dd = m.dd; (void)dd;
#define END });
  OP("zddRandom", 'Z', 8) Rng r(a[1], 6, 6); int k = 1 + r.upto(a[2] % 3 == 0 ? 3 : 14); TT t; DdNode *z = Cudd_ReadZero(dd); Cudd_Ref(z); for (int i = 0; i < k; i++) { int s = r.upto(1 << m.zn); if (a[3] % 3 == 0) s &= r.upto(1 << m.zn); if (m.zn > m.n && a[4] % 8) for (int j = 0; j < m.n; j++) if ((s >> 2 * j & 3) == 3) s &= ~((1 + r.upto(3)) << 2 * j); DdNode *y = x.set(s), *u = m.ref(Cudd_zddUnion(dd, z, y), "zddUnion"); Cudd_RecursiveDerefZdd(dd, y); Cudd_RecursiveDerefZdd(dd, z); z = u; t[s] = true; } if (m.zt(z) != t) m.fail("wrong-result: zddUnion (construction)"); m.zs.push_back({z, t}); END
  OP("zddVar", 'Z', 1) int v = a[1] % m.zn; x.exact(Cudd_zddIthVar(dd, v), tabulate([&](int s) { return s < 1 << m.zn && s >> v & 1; }), "zddIthVar"); END
  OP("zddRelease", 'Z', 4) if (m.zs.size() > 6) { size_t i = 2 + a[1] % (m.zs.size() - 2); DdNode *r = m.zs[i].first; m.zs.erase(m.zs.begin() + i); Cudd_RecursiveDerefZdd(dd, r); } END
  OP("zddSetOp", 'z', 10) auto f = x.F(a[1]), g = x.F(a[2]); const TT &p = f.second, &q = g.second; switch (a[3] % 4) { case 0: x.exact(Cudd_zddUnion(dd, f.first, g.first), p | q, "zddUnion"); break; case 1: x.exact(Cudd_zddIntersect(dd, f.first, g.first), p & q, "zddIntersect"); break; case 2: x.exact(Cudd_zddDiff(dd, f.first, g.first), p & ~q, "zddDiff"); break; default: { DdNode *r = Cudd_zddDiffConst(dd, f.first, g.first); m.need(r, "null: zddDiffConst"); m.same(r == Cudd_ReadZero(dd), leqT(p, q), "zddDiffConst"); DdNode *u = m.ref(Cudd_zddUnion(dd, f.first, g.first), "zddUnion"); m.same(Cudd_zddDiffConst(dd, f.first, u) == Cudd_ReadZero(dd), true, "zddDiffConst(P, P+Q)"); Cudd_RecursiveDerefZdd(dd, u); } } END
  OP("zddIte", 'z', 4) auto f = x.F(a[1]), g = x.F(a[2]), h = x.F(a[3]); if (a[4] % 7 == 0) g = f; if (a[4] % 7 == 1) h = f; if (a[4] % 7 == 2) g = h; x.exact(Cudd_zddIte(dd, f.first, g.first, h.first), (f.second & g.second) | (~f.second & h.second), "zddIte"); END
  OP("zddSubset", 'z', 5) auto f = x.F(a[1]); int v = a[2] % m.zn, b = 1 << v; switch (a[3] % 3) { case 0: x.exact(Cudd_zddSubset0(dd, f.first, v), tabulate([&](int s) { return !(s & b) && f.second[s]; }), "zddSubset0"); break; case 1: x.exact(Cudd_zddSubset1(dd, f.first, v), tabulate([&](int s) { return !(s & b) && f.second[s | b]; }), "zddSubset1"); break; default: x.exact(Cudd_zddChange(dd, f.first, v), tabulate([&](int s) { return f.second[s ^ b]; }), "zddChange"); } END
  OP("zddUnate", 'z', 5) auto f = x.F(a[1]), g = x.F(a[2]); auto P = x.sets(f.second), Q = x.sets(g.second); if (a[3] % 3 == 0) { TT t; for (int p : P) for (int q : Q) t[p | q] = true; x.exact(Cudd_zddUnateProduct(dd, f.first, g.first), t, "zddUnateProduct"); return; } if (Q.empty()) return; pair<DdNode *, TT> d = f; DdNode *made = nullptr; if (a[3] % 3 == 1) { made = m.ref(Cudd_zddUnateProduct(dd, f.first, g.first), "zddUnateProduct"); d = {made, m.zt(made)}; } TT t = tabulate([&](int s) { if (s >= 1 << m.zn) return false; for (int q : Q) if (s & q || !d.second[s | q]) return false; return true; }); x.exact(a[4] & 1 ? Cudd_zddDivide(dd, d.first, g.first) : Cudd_zddDivideF(dd, d.first, g.first), t, a[4] & 1 ? "zddDivide" : "zddDivideF"); if (made) Cudd_RecursiveDerefZdd(dd, made); END
  OP("zddProduct", 'z', 5) if (m.zn == m.n) return; auto f = x.C(a[1]), g = x.C(a[2]); auto P = x.sets(f.second), Q = x.sets(g.second); TT t; for (int p : P) for (int q : Q) if (x.cubeOk(p | q)) t[p | q] = true; if (a[3] % 3 == 0) { x.exact(Cudd_zddProduct(dd, f.first, g.first), t, "zddProduct"); return; } if (Q.empty()) return; pair<DdNode *, TT> d = f; DdNode *made = nullptr; if (a[3] % 3 == 1) { made = m.ref(Cudd_zddProduct(dd, f.first, g.first), "zddProduct"); d = {made, t}; } auto sup = [](int s) { return (s | s >> 1) & 0x155; }; TT e = tabulate([&](int s) { if (s >= 1 << m.zn || !ZX::cubeOk(s)) return false; for (int q : Q) if (sup(s) & sup(q) || !d.second[s | q]) return false; return true; }); x.exact(a[4] & 1 ? Cudd_zddWeakDiv(dd, d.first, g.first) : Cudd_zddWeakDivF(dd, d.first, g.first), e, a[4] & 1 ? "zddWeakDiv" : "zddWeakDivF"); if (made) Cudd_RecursiveDerefZdd(dd, made); END
  OP("zddCover", 'z', 4) if (m.zn == m.n) return; auto f = x.C(a[1]); TT t = x.func(f.second); if (a[2] & 1) m.exact(Cudd_MakeBddFromZddCover(dd, f.first), t, "MakeBddFromZddCover"); else { DdNode *r = m.ref(Cudd_zddComplement(dd, f.first), "zddComplement"); TT c = m.zt(r); if (!x.isCover(c) || x.func(c) != ~t) m.fail("wrong-result: zddComplement"); m.zs.push_back({r, c}); } END
  OP("zddIsop", 'z', 5) if (m.zn == m.n) return; auto f = m.F(a[1]), g = m.F(a[2]); DdNode *l = m.ref(Cudd_bddAnd(dd, f.first, g.first), "and"); TT lt = f.second & g.second; pair<DdNode *, TT> u = a[3] & 1 ? f : pair<DdNode *, TT>{l, lt}; DdNode *z = nullptr; DdNode *b = Cudd_zddIsop(dd, l, u.first, &z); m.need(b && z, "null: zddIsop"); x.isop(b, z, lt, u.second, "zddIsop"); DdNode *b2 = Cudd_bddIsop(dd, l, u.first); x.isop(b2, nullptr, lt, u.second, "bddIsop"); Cudd_RecursiveDeref(dd, l); END
  OP("bddIsop", 'z', 1) auto f = m.F(a[1]), g = m.F(a[2]); DdNode *l = m.ref(Cudd_bddAnd(dd, f.first, g.first), "and"); TT lt = f.second & g.second; x.isop(Cudd_bddIsop(dd, l, f.first), nullptr, lt, f.second, "bddIsop"); Cudd_RecursiveDeref(dd, l); END
  OP("zddPort", 'z', 4) if (m.zn != m.n) return; bool same = true; for (int i = 0; i < m.n; i++) same &= Cudd_ReadPerm(dd, i) == Cudd_ReadPermZdd(dd, i); Cudd_ReorderingType rt; if (!same || Cudd_ReorderingStatus(dd, &rt) || Cudd_ReorderingStatusZdd(dd, &rt)) return; TT lim = tabulate([&](int s) { return s < 1 << m.n; }); if (a[2] & 1) { auto f = m.F(a[1]); x.exact(Cudd_zddPortFromBdd(dd, f.first), f.second & lim, "zddPortFromBdd"); } else { auto f = x.F(a[1]); m.exact(Cudd_zddPortToBdd(dd, f.first), tabulate([&](int s) { return f.second[s & ((1 << m.n) - 1)]; }), "zddPortToBdd"); } END
  OP("zddCount", 'z', 3) auto f = x.F(a[1]); double c = f.second.count(); m.same(Cudd_zddCount(dd, f.first) == c, true, "zddCount"); m.same(Cudd_zddCountDouble(dd, f.first) == c, true, "zddCountDouble"); m.same(Cudd_zddCountMinterm(dd, f.first, m.zn) == c, true, "zddCountMinterm"); set<DdNode *> s; std::function<void(DdNode *)> g = [&](DdNode *q) { if (Cudd_IsConstant(q) || !s.insert(q).second) return; g(Cudd_T(q)); g(Cudd_E(q)); }; g(f.first); m.same(Cudd_zddDagSize(f.first) == (int)s.size(), true, "zddDagSize"); END
  OP("zddPaths", 'z', 3) auto f = x.F(a[1]); int *path; DdGen *g = Cudd_zddFirstPath(dd, f.first, &path); m.need(g, "null: zddFirstPath"); TT t; int cnt = 0; while (!Cudd_IsGenEmpty(g)) { int s = 0; for (int i = 0; i < m.zn; i++) if (path[i] == 1) s |= 1 << i; if (t[s]) m.fail("wrong-result: zddNextPath repeats a set"); t[s] = true; if (m.zn > m.n && ZX::cubeOk(s)) { char *p = Cudd_zddCoverPathToString(dd, path, nullptr); m.need(p, "null: zddCoverPathToString"); for (int i = 0; i < m.n; i++) m.same(p[i] == ((s >> 2 * i & 1) ? '1' : (s >> (2 * i + 1) & 1) ? '0' : '-'), true, "zddCoverPathToString"); m.same(p[m.n], 0, "zddCoverPathToString ends the string"); free(p); } if (++cnt > 2048) m.fail("wrong-result: zddNextPath does not end"); if (!Cudd_zddNextPath(g, &path)) break; } Cudd_GenFree(g); if (t != f.second) m.fail("wrong-result: zddFirstPath/zddNextPath"); END
  OP("zddSupport", 'z', 2) if (m.zn != m.n) return; auto f = x.F(a[1]); vector<int> v; for (int i = 0; i < m.zn; i++) for (int s = 0; s < 1 << m.zn; s++) if (f.second[s] && s >> i & 1) { v.push_back(i); break; } m.exact(Cudd_zddSupport(dd, f.first), m.cubeT(v), "zddSupport"); END
  OP("zddOne", 'z', 1) int l = a[1] % (m.zn + 1); DdNode *r = Cudd_ReadZddOne(dd, l); int mask = 0; for (int i = 0; i < m.zn; i++) if (Cudd_ReadPermZdd(dd, i) >= l) mask |= 1 << i; x.exact(r, tabulate([&](int s) { return (s & ~mask) == 0; }), "ReadZddOne"); END
  OP("zddReorder", 'z', 3) m.need(Cudd_zddReduceHeap(dd, ZREO[a[1] % 6], a[2] % 3), "null: zddReduceHeap"); m.all("during ZDD reordering"); m.zgroups(); END
  OP("zddShuffle", 'z', 1) if (m.zn > m.n) return; auto p = shuffled(m.zn, a[1]); m.need(Cudd_zddShuffleHeap(dd, p.data()), "null: zddShuffleHeap"); for (int i = 0; i < m.zn; i++) m.same(Cudd_ReadInvPermZdd(dd, i) == p[i], true, "zddShuffleHeap order"); m.all("while the ZDD order was shuffled"); END
  OP("zddAlign", 'z', 2) if (a[1] & 1) { auto p = shuffled(m.n, a[2]); if (!m.grp.empty() || Cudd_ReadTree(dd)) return; Cudd_zddRealignEnable(dd); if (a[3] & 1) m.need(Cudd_ReduceHeap(dd, REO[a[4] % (sizeof REO / sizeof *REO)], 0), "null: ReduceHeap with realignment"); else m.need(Cudd_ShuffleHeap(dd, p.data()), "null: ShuffleHeap"); m.all("during BDD reordering with realignment"); if (a[3] & 1 && REO[a[4] % (sizeof REO / sizeof *REO)] != CUDD_REORDER_SAME) { int k = m.zn / m.n; for (int l = 0; l < m.zn; l++) m.same(Cudd_ReadInvPermZdd(dd, l) / k == Cudd_ReadInvPerm(dd, l / k), true, "ZDD order after realignment"); } m.zgroups(); if (a[5] & 1) Cudd_zddRealignDisable(dd); } else if (a[2] & 1) { Cudd_AutodynEnableZdd(dd, ZREO[2 + a[3] % 4]); Cudd_SetNextReordering(dd, Cudd_ReadKeys(dd) + a[4] % 30); } else Cudd_AutodynDisableZdd(dd); END
  OP("zddGroup", 'z', 1) if (m.zn != m.n || m.zn < 3) return; int sz = 2 + a[1] % (m.zn - 1); if (sz > m.zn) sz = m.zn; int l = a[2] % (m.zn - sz + 1); vector<int> v; for (int i = l; i < l + sz; i++) v.push_back(Cudd_ReadInvPermZdd(dd, i)); m.need(Cudd_MakeZddTreeNode(dd, v[0], sz, a[3] & 1 ? MTR_FIXED : MTR_DEFAULT), "null: MakeZddTreeNode"); m.need(Cudd_zddReduceHeap(dd, ZREO[a[4] % 6], 0), "null: zddReduceHeap"); m.all("during ZDD group reordering"); int lo = 99, hi = -1; for (int i : v) lo = std::min(lo, Cudd_ReadPermZdd(dd, i)), hi = std::max(hi, Cudd_ReadPermZdd(dd, i)); m.same(hi - lo == sz - 1, true, "variables of a ZDD group stay adjacent"); if (a[3] & 1) for (int i = 0; i < sz; i++) m.same(Cudd_ReadInvPermZdd(dd, lo + i) == v[i], true, "a fixed ZDD group keeps its order"); Cudd_FreeZddTree(dd); END
#undef OP
#undef END
}
