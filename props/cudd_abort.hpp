// Interrupted operations: each operation once to its end, then again with an interruption striking at its k-th step.
namespace abortp {
struct W { // a manager with operands
  DdManager *dd; int n, zn; Rng &r; vector<DdNode *> b, a, z; vector<TT> bt; int kind = 0; long k = 0; int asked = 0;
  DdNode *B() { return b[r.upto(b.size())]; } DdNode *Ad() { return a[r.upto(a.size())]; } DdNode *Z() { return z[r.upto(z.size())]; }
};
typedef vector<DdNode *> NV_;
struct AOp { const char *name; char kind; bool det; std::function<bool(W &, const vector<DdNode *> &f, const vector<DdNode *> &vars, long x, NV_ &out)> f; bool orig = false; };
static vector<AOp> &aops() { static vector<AOp> o; return o; }
static DdNode *cubeOf(DdManager *dd, const vector<int> &v) { vector<DdNode *> x; for (int i : v) x.push_back(Cudd_bddIthVar(dd, i)); x.push_back(nullptr); DdNode *c = Cudd_bddComputeCube(dd, x.data(), nullptr, v.size()); if (c) Cudd_Ref(c); return c; }
static bool one(DdNode *x, NV_ &o) { if (!x) return false; Cudd_Ref(x); o.push_back(x); return true; }
static bool arr(int k, DdNode **p, NV_ &o) { if (k <= 0) return false; for (int i = 0; i < k; i++) o.push_back(p[i]); free(p); return true; }
static void init() {
  if (!aops().empty()) return;
#define AB(NAME, EXPR) aops().push_back({NAME, 'b', true, [](W &w, const vector<DdNode *> &f, const vector<DdNode *> &V, long x, NV_ &o) -> bool { DdManager *dd = w.dd; int n = w.n; (void)n; (void)x; return one(EXPR, o); }})
#define AX(NAME, ...) aops().push_back({NAME, 'b', true, [](W &w, const vector<DdNode *> &f, const vector<DdNode *> &V, long x, NV_ &o) -> bool { DdManager *dd = w.dd; int n = w.n; (void)n; (void)x; __VA_ARGS__ }})
#define AA(NAME, EXPR) aops().push_back({NAME, 'a', true, [](W &w, const vector<DdNode *> &f, const vector<DdNode *> &V, long x, NV_ &o) -> bool { DdManager *dd = w.dd; int n = w.n; (void)n; (void)x; return one(EXPR, o); }})
#define AZ(NAME, EXPR) aops().push_back({NAME, 'z', true, [](W &w, const vector<DdNode *> &f, const vector<DdNode *> &V, long x, NV_ &o) -> bool { DdManager *dd = w.dd; int n = w.n; (void)n; (void)x; return one(EXPR, o); }})
  // f[0..2]: functions, f[3]: positive cube (kinds b, a); V: all variables
  AB("bddAnd", Cudd_bddAnd(dd, f[0], f[1])); AB("bddOr", Cudd_bddOr(dd, f[0], f[1])); AB("bddNand", Cudd_bddNand(dd, f[0], f[1])); AB("bddNor", Cudd_bddNor(dd, f[0], f[1])); AB("bddXor", Cudd_bddXor(dd, f[0], f[1])); AB("bddXnor", Cudd_bddXnor(dd, f[0], f[1])); AB("bddIte", Cudd_bddIte(dd, f[0], f[1], f[2])); AB("bddIntersect", Cudd_bddIntersect(dd, f[0], f[1]));
  AB("bddAndAbstract", Cudd_bddAndAbstract(dd, f[0], f[1], f[3])); AB("bddExistAbstract", Cudd_bddExistAbstract(dd, f[0], f[3])); AB("bddUnivAbstract", Cudd_bddUnivAbstract(dd, f[0], f[3])); AB("bddXorExistAbstract", Cudd_bddXorExistAbstract(dd, f[0], f[1], f[3])); AB("bddBooleanDiff", Cudd_bddBooleanDiff(dd, f[0], x % n));
  AB("Cofactor", Cudd_Cofactor(dd, f[0], f[3])); AB("bddCompose", Cudd_bddCompose(dd, f[0], f[1], x % n));
  AX("bddPermute", vector<int> p = shuffled(n, x); return one(Cudd_bddPermute(dd, f[0], p.data()), o);); AX("bddSwapVariables", vector<DdNode *> a(V.begin(), V.begin() + n / 2), c(V.begin() + n / 2, V.begin() + n / 2 * 2); return one(Cudd_bddSwapVariables(dd, f[0], a.data(), c.data(), n / 2), o););
  AX("bddVectorCompose", vector<DdNode *> v = V; v[x % n] = f[1]; v[x / 16 % n] = f[2]; return one(Cudd_bddVectorCompose(dd, f[0], v.data()), o););
  AX("bddVarMap", vector<DdNode *> a(V.begin(), V.begin() + n / 2), c(V.begin() + n / 2, V.begin() + n / 2 * 2); int kk = w.kind; (void)kk; if (!Cudd_SetVarMap(dd, a.data(), c.data(), n / 2)) return false; return one(Cudd_bddVarMap(dd, f[0]), o););
  AB("bddConstrain", Cudd_bddConstrain(dd, f[0], f[1])); AB("bddRestrict", Cudd_bddRestrict(dd, f[0], f[1])); AB("bddNPAnd", Cudd_bddNPAnd(dd, f[0], f[1])); AB("bddMinimize", Cudd_bddMinimize(dd, f[0], f[1])); AB("bddLICompaction", Cudd_bddLICompaction(dd, f[0], f[1])); AB("bddSqueeze", Cudd_bddSqueeze(dd, f[4], f[0])); AB("bddInterpolate", Cudd_bddInterpolate(dd, f[4], f[0]));
  AX("bddConstrainDecomp", DdNode **d = Cudd_bddConstrainDecomp(dd, f[0]); if (!d) return false; return arr(n, d, o);); AX("bddCharToVect", if (f[0] == Cudd_ReadLogicZero(dd)) return one(f[0], o); DdNode **d = Cudd_bddCharToVect(dd, f[0]); if (!d) return false; return arr(n, d, o););
  AB("FindEssential", Cudd_FindEssential(dd, f[0])); AB("Support", Cudd_Support(dd, f[0])); AX("VectorSupport", DdNode *F[3] = {f[0], f[1], f[2]}; return one(Cudd_VectorSupport(dd, F, 3), o););
  AX("ClassifySupport", DdNode *c, *a, *b; if (!Cudd_ClassifySupport(dd, f[0], f[1], &c, &a, &b)) return false; for (DdNode *y : {c, a, b}) { Cudd_Ref(y); o.push_back(y); } return true;);
  AB("CProjection", Cudd_CProjection(dd, f[0], f[3])); AX("bddClosestCube", int d; DdNode *r = Cudd_bddClosestCube(dd, f[0], f[1], &d); return one(r, o););
  AX("ShortestPath", vector<int> wt(n, 1); wt[x % n] = 3; int l; return one(Cudd_ShortestPath(dd, f[0], wt.data(), nullptr, &l), o);); AX("LargestCube", int l; return one(Cudd_LargestCube(dd, f[0], &l), o););
  AB("Decreasing", Cudd_Decreasing(dd, f[0], x % n)); AB("Increasing", Cudd_Increasing(dd, f[0], x % n));
  AX("bddMakePrime", if (f[0] == Cudd_ReadLogicZero(dd)) return one(f[0], o); vector<DdNode *> v = V; DdNode *c = Cudd_bddPickOneMinterm(dd, f[0], v.data(), n); if (!c) return false; Cudd_Ref(c); DdNode *r = Cudd_bddMakePrime(dd, c, f[0]); bool k = one(r, o); Cudd_RecursiveDeref(dd, c); return k;);
  AX("bddPickOneMinterm", if (f[0] == Cudd_ReadLogicZero(dd)) return one(f[0], o); vector<DdNode *> v = V; return one(Cudd_bddPickOneMinterm(dd, f[0], v.data(), n), o););
  AX("SolveEqn", int m = 1 + x % std::min(3, n); vector<int> vs; for (int i = 0; i < m; i++) vs.push_back(i); DdNode *Y = cubeOf(dd, vs); if (!Y) return false; vector<DdNode *> G(m); int *yi = nullptr; DdNode *r = Cudd_SolveEqn(dd, f[0], Y, G.data(), &yi, m); bool k = one(r, o); if (k) { for (auto *g : G) o.push_back(g); } if (yi) free(yi); Cudd_RecursiveDeref(dd, Y); return k;);
  AB("SubsetHeavyBranch", Cudd_SubsetHeavyBranch(dd, f[0], 0, 1 + x % 8)); AB("SupersetHeavyBranch", Cudd_SupersetHeavyBranch(dd, f[0], 0, 1 + x % 8)); AB("SubsetShortPaths", Cudd_SubsetShortPaths(dd, f[0], 0, 1 + x % 8, x / 8 & 1)); AB("SupersetShortPaths", Cudd_SupersetShortPaths(dd, f[0], 0, 1 + x % 8, x / 8 & 1)); AB("SubsetCompress", Cudd_SubsetCompress(dd, f[0], n, 1 + x % 8)); AB("SupersetCompress", Cudd_SupersetCompress(dd, f[0], n, 1 + x % 8));
  AB("UnderApprox", Cudd_UnderApprox(dd, f[0], n, x % 4, x / 4 & 1, 1.0)); AB("OverApprox", Cudd_OverApprox(dd, f[0], n, x % 4, x / 4 & 1, 1.0)); AB("RemapUnderApprox", Cudd_RemapUnderApprox(dd, f[0], n, x % 4, 1.0)); AB("RemapOverApprox", Cudd_RemapOverApprox(dd, f[0], n, x % 4, 1.0)); AB("BiasedUnderApprox", Cudd_BiasedUnderApprox(dd, f[0], f[1], n, x % 4, 1.0, 0.7)); AB("BiasedOverApprox", Cudd_BiasedOverApprox(dd, f[0], f[1], n, x % 4, 1.0, 0.7));
  AB("bddClippingAnd", Cudd_bddClippingAnd(dd, f[0], f[1], 1 + x % n, x / 16 & 1)); AB("bddClippingAndAbstract", Cudd_bddClippingAndAbstract(dd, f[0], f[1], f[3], 1 + x % n, x / 16 & 1));
#define DEC(N) AX(#N, DdNode **c = nullptr; int k = Cudd_bdd##N(dd, f[0], &c); return arr(k, c, o);)
  DEC(ApproxConjDecomp); DEC(ApproxDisjDecomp); DEC(IterConjDecomp); DEC(IterDisjDecomp); DEC(GenConjDecomp); aops().back().det = false; DEC(GenDisjDecomp); aops().back().det = false; DEC(VarConjDecomp); aops().back().det = false; DEC(VarDisjDecomp); aops().back().det = false; // their choice depends on the nodes at hand

  AB("bddIsop", Cudd_bddIsop(dd, f[4], f[0])); AB("bddLiteralSetIntersection", Cudd_bddLiteralSetIntersection(dd, f[3], f[5]));
  AX("bddMaximallyExpand", if (f[0] == Cudd_ReadLogicZero(dd)) return one(f[0], o); vector<DdNode *> v = V; DdNode *c = Cudd_bddPickOneMinterm(dd, f[0], v.data(), n); if (!c) return false; Cudd_Ref(c); DdNode *r = Cudd_bddMaximallyExpand(dd, c, Cudd_ReadOne(dd), f[0]); bool k = one(r, o); Cudd_RecursiveDeref(dd, c); return k;);
#define HALF vector<DdNode *> a(V.begin(), V.begin() + n / 3), c(V.begin() + n / 3, V.begin() + n / 3 * 2), d(V.begin() + n / 3 * 2, V.begin() + n / 3 * 3); int h = n / 3; if (!h) return one(f[0], o);
  AX("Xgty", HALF return one(Cudd_Xgty(dd, h, nullptr, a.data(), c.data()), o);); AX("Xeqy", HALF return one(Cudd_Xeqy(dd, h, a.data(), c.data()), o);); AX("Dxygtdxz", HALF return one(Cudd_Dxygtdxz(dd, h, a.data(), c.data(), d.data()), o);); AX("Dxygtdyz", HALF return one(Cudd_Dxygtdyz(dd, h, a.data(), c.data(), d.data()), o););
  AX("Inequality", HALF return one(Cudd_Inequality(dd, h, int(x % 5) - 2, a.data(), c.data()), o);); AX("Disequality", HALF return one(Cudd_Disequality(dd, h, int(x % 5) - 2, a.data(), c.data()), o);); AX("bddInterval", vector<DdNode *> v = V; unsigned lo = x % (1 << n), hi = x / 1024 % (1 << n); if (lo > hi) std::swap(lo, hi); return one(Cudd_bddInterval(dd, n, v.data(), lo, hi), o););
  AX("PrioritySelect", HALF static const DD_PRFP PF[3] = {Cudd_Xgty, Cudd_Dxygtdxz, Cudd_Dxygtdyz}; return one(Cudd_PrioritySelect(dd, f[0], a.data(), c.data(), d.data(), nullptr, h, PF[x % 3]), o););
  AX("SplitSet", vector<DdNode *> v = V; double c = Cudd_CountMinterm(dd, f[0], n); if (c < 0) return false; if (c < 1) return one(f[0], o); return one(Cudd_SplitSet(dd, f[0], v.data(), n, std::min<double>(c, 1 + x % 5)), o);); AX("SubsetWithMaskVars", if (f[0] == Cudd_ReadLogicZero(dd)) return one(f[0], o); vector<DdNode *> v = V, mk(V.begin(), V.begin() + 1 + x % n); return one(Cudd_SubsetWithMaskVars(dd, f[0], v.data(), n, mk.data(), mk.size()), o););
  AX("addHamming", vector<DdNode *> a(V.begin(), V.begin() + n / 2), c(V.begin() + n / 2, V.begin() + n / 2 * 2); return one(Cudd_addHamming(dd, a.data(), c.data(), n / 2), o););
  AX("pickArbitrary", if (f[0] == Cudd_ReadLogicZero(dd)) return one(f[0], o); vector<DdNode *> v = V; DdNode **p = Cudd_bddPickArbitraryMinterms(dd, f[0], v.data(), n, 1); if (!p) return false; Cudd_Ref(p[0]); return arr(1, p, o););
  AA("addPlus", Cudd_addApply(dd, Cudd_addPlus, f[0], f[1])); AA("addTimes", Cudd_addApply(dd, Cudd_addTimes, f[0], f[1])); AA("addMinus", Cudd_addApply(dd, Cudd_addMinus, f[0], f[1])); AA("addMinimum", Cudd_addApply(dd, Cudd_addMinimum, f[0], f[1])); AA("addMonadic", Cudd_addMonadicApply(dd, Cudd_addLog, f[0])); AA("addIte", Cudd_addIte(dd, f[6], f[1], f[2])); AA("addCmpl", Cudd_addCmpl(dd, f[0])); AA("addNegate", Cudd_addNegate(dd, f[0])); AA("addRoundOff", Cudd_addRoundOff(dd, f[0], x % 3)); AA("addIthBit", Cudd_addIthBit(dd, f[0], x % 3));
  AA("addScalarInverse", Cudd_addScalarInverse(dd, f[7], f[8])); AA("addExistAbstract", Cudd_addExistAbstract(dd, f[0], f[3])); AA("addUnivAbstract", Cudd_addUnivAbstract(dd, f[0], f[3])); AA("addOrAbstract", Cudd_addOrAbstract(dd, f[6], f[3])); AA("addMinAbstract", Cudd_addMinAbstract(dd, f[0], f[3])); AA("addCompose", Cudd_addCompose(dd, f[0], f[6], x % n)); AA("addConstrain", Cudd_addConstrain(dd, f[0], f[6])); AA("addRestrict", Cudd_addRestrict(dd, f[0], f[6])); aops().back().orig = true; // documented: its argument when it would not get smaller

#define AAX(NAME, ...) aops().push_back({NAME, 'a', true, [](W &w, const vector<DdNode *> &f, const vector<DdNode *> &V, long x, NV_ &o) -> bool { DdManager *dd = w.dd; int n = w.n; (void)n; (void)x; __VA_ARGS__ }})
  AAX("addPermute", vector<int> p = shuffled(n, x); return one(Cudd_addPermute(dd, f[0], p.data()), o);); AAX("addSwapVariables", vector<DdNode *> a(V.begin(), V.begin() + n / 2), c(V.begin() + n / 2, V.begin() + n / 2 * 2); return one(Cudd_addSwapVariables(dd, f[0], a.data(), c.data(), n / 2), o);); AAX("addVectorCompose", vector<DdNode *> v = V; v[x % n] = f[6]; return one(Cudd_addVectorCompose(dd, f[0], v.data()), o);); AAX("addNonSimCompose", vector<DdNode *> v = V; v[x % n] = f[6]; return one(Cudd_addNonSimCompose(dd, f[0], v.data()), o);); AAX("addGeneralVectorCompose", vector<DdNode *> v = V, u = V; v[x % n] = f[6]; for (auto &y : u) { y = nullptr; } vector<DdNode *> off; bool ok = true; for (int i = 0; i < n; i++) { DdNode *c = Cudd_addCmpl(dd, v[i]); if (!c) { ok = false; break; } Cudd_Ref(c); off.push_back(c); } if (ok) ok = one(Cudd_addGeneralVectorCompose(dd, f[0], v.data(), off.data()), o); for (auto *c : off) Cudd_RecursiveDeref(dd, c); return ok;);
  AAX("addMatrixMultiply", vector<DdNode *> z(V.begin() + n / 3, V.begin() + n / 3 * 2); return one(Cudd_addMatrixMultiply(dd, f[0], f[1], z.data(), z.size()), o);); AAX("addTimesPlus", vector<DdNode *> z(V.begin() + n / 3, V.begin() + n / 3 * 2); return one(Cudd_addTimesPlus(dd, f[0], f[1], z.data(), z.size()), o);); AAX("addTriangle", vector<DdNode *> z(V.begin() + n / 3, V.begin() + n / 3 * 2); return one(Cudd_addTriangle(dd, f[0], f[1], z.data(), z.size()), o);); AAX("addOuterSum", return one(Cudd_addOuterSum(dd, f[0], f[1], f[2]), o););
  AAX("addWalsh", vector<DdNode *> a(V.begin(), V.begin() + n / 2), c(V.begin() + n / 2, V.begin() + n / 2 * 2); return one(Cudd_addWalsh(dd, a.data(), c.data(), n / 2), o);); AAX("addResidue", return one(Cudd_addResidue(dd, n, 2 + x % 4, x / 4 & 3, 0), o);); AAX("addXeqy", vector<DdNode *> a(V.begin(), V.begin() + n / 2), c(V.begin() + n / 2, V.begin() + n / 2 * 2); return one(Cudd_addXeqy(dd, n / 2, a.data(), c.data()), o););
  AA("addBddPattern", Cudd_addBddPattern(dd, f[0])); AA("addBddThreshold", Cudd_addBddThreshold(dd, f[0], x % 4)); AA("addBddStrictThreshold", Cudd_addBddStrictThreshold(dd, f[0], x % 4)); AA("addBddInterval", Cudd_addBddInterval(dd, f[0], x % 3, 1 + x / 4 % 4)); AA("addBddIthBit", Cudd_addBddIthBit(dd, f[0], x % 3)); AA("BddToAdd", Cudd_BddToAdd(dd, f[9])); AA("addFindMax", Cudd_addFindMax(dd, f[0]));
  AZ("zddUnion", Cudd_zddUnion(dd, f[0], f[1])); AZ("zddIntersect", Cudd_zddIntersect(dd, f[0], f[1])); AZ("zddDiff", Cudd_zddDiff(dd, f[0], f[1])); AZ("zddIte", Cudd_zddIte(dd, f[0], f[1], f[2])); AZ("zddSubset1", Cudd_zddSubset1(dd, f[0], x % w.zn)); AZ("zddSubset0", Cudd_zddSubset0(dd, f[0], x % w.zn)); AZ("zddChange", Cudd_zddChange(dd, f[0], x % w.zn)); AZ("zddUnateProduct", Cudd_zddUnateProduct(dd, f[0], f[1])); AZ("zddDivide", f[1] == Cudd_ReadZero(dd) ? f[0] : Cudd_zddDivide(dd, f[0], f[1])); AZ("zddDivideF", f[1] == Cudd_ReadZero(dd) ? f[0] : Cudd_zddDivideF(dd, f[0], f[1])); AZ("zddSupport", Cudd_zddSupport(dd, f[0]));
  AZ("zddProduct", w.zn == w.n ? Cudd_zddUnion(dd, f[0], f[1]) : Cudd_zddProduct(dd, f[0], f[1])); AZ("zddWeakDiv", w.zn == w.n || f[1] == Cudd_ReadZero(dd) ? f[0] : Cudd_zddWeakDiv(dd, f[0], f[1])); AZ("zddWeakDivF", w.zn == w.n || f[1] == Cudd_ReadZero(dd) ? f[0] : Cudd_zddWeakDivF(dd, f[0], f[1])); AZ("zddComplement", w.zn == w.n ? f[0] : Cudd_zddComplement(dd, f[0])); AZ("MakeBddFromZddCover", w.zn == w.n ? f[0] : Cudd_MakeBddFromZddCover(dd, f[0])); AZ("zddPortFromBdd", w.zn == w.n ? Cudd_zddPortFromBdd(dd, f[9]) : f[0]); AZ("zddPortToBdd", w.zn == w.n ? Cudd_zddPortToBdd(dd, f[0]) : f[0]);
  aops().push_back({"zddIsop", 'z', true, [](W &w, const vector<DdNode *> &f, const vector<DdNode *> &, long, NV_ &o) -> bool { if (w.zn == w.n) return one(f[0], o); DdNode *z = nullptr, *b = Cudd_zddIsop(w.dd, f[10], f[9], &z); if (!b) return false; Cudd_Ref(b); o.push_back(b); Cudd_Ref(z); o.push_back(z); return true; }});
}
// the results that are zero-suppressed diagrams
static bool isZ(const AOp &op, size_t i) { string s = op.name; if (op.kind != 'z') return false; if (s == "zddIsop") return i == 1; return s != "zddSupport" && s != "MakeBddFromZddCover" && s != "zddPortToBdd"; }
static W *cur;
static int ask(const void *) { cur->asked++; return 1; }
struct Snap { long live = 0, refs = 0; bool operator==(const Snap &o) const { return live == o.live && refs == o.refs; } };
} // namespace abortp
extern "C" void verif_snap(DdManager *, long *, long *); extern "C" void verif_strike(DdManager *, long); extern "C" void verif_flush(DdManager *); extern "C" double verif_misses(DdManager *); extern "C" long verif_blocks, verif_deny, verif_allocs; extern "C" void (*MMoutOfMemory)(size_t);
namespace abortp {
static Snap snap(DdManager *dd) { cuddGarbageCollect(dd, 1); Snap s; verif_snap(dd, &s.live, &s.refs); return s; }
struct P : Prop {
  bool mem; // failing allocations instead of the other interruptions
  P(bool m) : mem(m) { init(); }
  string id() override { return mem ? "C29" : "C28"; }
  string rule() override { if (mem) return "A case is one operation of the decision-diagram library on random operands, run to its end and then, with the cache emptied, several times with one memory allocation refused at a chosen point; non-trivial when at least one run was really cut short and the operands had six or more nodes."; return "A case is one operation of the decision-diagram library on random operands, run to its end and then, with the cache emptied, several times with an interruption (termination callback, time limit, or limit on live nodes) striking at chosen steps; non-trivial when at least one run was really cut short and the operands had six or more nodes."; }
  long quickN() override { return mem ? 100000 : 60000; } long thoroughN() override { return 6000000; }
  // CUDD's subsetting by heavy branches or short paths does not check its own allocations (known/C29-*.case, DESIGN.md): drawn in C28 only.
  static bool unchecked(const string &n) { return n == "SubsetHeavyBranch" || n == "SupersetHeavyBranch" || n == "SubsetShortPaths" || n == "SupersetShortPaths" || n == "SubsetCompress" || n == "SupersetCompress"; }
  vector<string> requiredTags() override { vector<string> r; for (auto &o : aops()) if (!(mem && unchecked(o.name))) r.push_back(string("op:") + o.name); return r; }
  Case gen(uint64_t seed, long i, bool) override { Rng r(seed, 28, i); Case c; do c.ext["op"] = r.upto(aops().size()); while (mem && unchecked(aops()[c.ext["op"]].name)); c.ext["_n"] = r.in(3, 8); c.ext["_seed"] = r.upto(1 << 30); c.ext["_x"] = r.upto(1 << 30); c.ext["_slots"] = r.p(70) ? 2 : 64; c.ext["_cache"] = r.p(50) ? 8 : 512; int k = r.in(1, 6); for (int j = 0; j < k; j++) { vector<long> o{r.upto(3), r.p(20) ? r.upto(6) : r.upto(100000)}; c.ops.push_back(o); } return c; }
  Verdict eval(const Case &c) override {
    return cu_child([&](Verdict &v) { Rng r(c.ext.at("_seed"), 1, 1); const AOp &op = aops()[c.ext.at("op") % aops().size()]; int n = std::max(1L, c.ext.at("_n")); if (op.kind != 'b') n = std::min(n, 6);
      CM m; m.v = &v; m.n = n; DdManager *dd = m.dd = Cudd_Init(n, 0, c.ext.at("_slots"), c.ext.at("_cache"), 0); m.need(dd, "null: Cudd_Init"); MMoutOfMemory = Cudd_OutOfMemSilent; Cudd_RegisterOutOfMemoryCallback(dd, Cudd_OutOfMemSilent); W w{dd, n, 0, r}; cur = &w; dprintf(1, "@op %s\n", op.name);
      if (op.kind == 'z') { int mult = r.p(50) ? 1 : 2; if (mult == 2) n = w.n = m.n = n; m.need(Cudd_zddVarsFromBddVars(dd, mult), "null: zddVars"); w.zn = mult * n; }
      vector<int> all; for (int i = 0; i < n; i++) all.push_back(i); if (r.p(40)) { vector<int> p = shuffled(n, r.upto(1000)); if (op.kind != 'z' ) m.need(Cudd_ShuffleHeap(dd, p.data()), "null: shuffle"); }
      vector<DdNode *> f; vector<pair<DdNode *, bool>> hold; auto H = [&](DdNode *x, bool z = false) { m.need(x, "null: setting up"); Cudd_Ref(x); hold.push_back({x, z}); return x; };
      auto bdd = [&](int den) { TT t; DdNode *x = m.build(all, 0, r, den, t); hold.push_back({x, false}); return r.p(50) ? Cudd_Not(x) : x; };
      auto rest = [&](double den) { vector<int> s; for (int i : all) if (r.p(den)) s.push_back(i); return s; };
      std::function<DdNode *(size_t, int)> addf = [&](size_t i, int kind) -> DdNode * { if (i == all.size()) { double q = kind == 2 ? r.upto(2) : kind == 3 ? 1 + r.upto(4) : r.p(15) ? r.upto(40) / 4.0 : r.upto(5); DdNode *x = Cudd_addConst(dd, q); Cudd_Ref(x); return x; } DdNode *t = addf(i + 1, kind), *e = addf(i + 1, kind), *y = Cudd_addIthVar(dd, all[i]); Cudd_Ref(y); DdNode *z = Cudd_addIte(dd, y, t, e); Cudd_Ref(z); Cudd_RecursiveDeref(dd, y); Cudd_RecursiveDeref(dd, t); Cudd_RecursiveDeref(dd, e); return z; };
      auto add = [&](int kind) { DdNode *x = addf(0, kind); hold.push_back({x, false}); return x; };
      vector<DdNode *> V; long x = c.ext.at("_x");
      if (op.kind == 'b') { int den = r.p(30) ? 15 : r.p(50) ? 50 : 75; for (int i = 0; i < 3; i++) f.push_back(bdd(den)); f.push_back(cubeOf(dd, rest(40))); hold.push_back({f[3], false}); f.push_back(H(Cudd_bddAnd(dd, f[0], f[1]))); { vector<int> s = rest(60); vector<DdNode *> y; vector<int> ph; for (int i : s) { y.push_back(Cudd_bddIthVar(dd, i)); ph.push_back(r.p(80)); } y.push_back(nullptr); f.push_back(H(Cudd_bddComputeCube(dd, y.data(), ph.data(), s.size()))); } for (int i = 0; i < n; i++) V.push_back(Cudd_bddIthVar(dd, i)); if (f[1] == Cudd_ReadLogicZero(dd)) f[1] = Cudd_ReadOne(dd); }
      else if (op.kind == 'a') { for (int i = 0; i < 3; i++) f.push_back(add(1)); vector<int> s = rest(40); DdNode *q = Cudd_ReadOne(dd); Cudd_Ref(q); for (int i : s) { DdNode *y = Cudd_addIthVar(dd, i); Cudd_Ref(y); DdNode *z = Cudd_addApply(dd, Cudd_addTimes, q, y); Cudd_Ref(z); Cudd_RecursiveDeref(dd, y); Cudd_RecursiveDeref(dd, q); q = z; } hold.push_back({q, false}); f.push_back(q); f.push_back(nullptr); f.push_back(nullptr); f.push_back(add(2)); f.push_back(add(3)); f.push_back(H(Cudd_addConst(dd, 1e-3))); f.push_back(bdd(50)); if (f[6] == Cudd_ReadZero(dd)) f[6] = Cudd_ReadOne(dd); for (int i = 0; i < n; i++) V.push_back(H(Cudd_addIthVar(dd, i))); }
      else { auto zf = [&](int den) -> DdNode * { if (w.zn == n) { TT t; DdNode *y = m.build(all, 0, r, den, t); DdNode *z = Cudd_zddPortFromBdd(dd, y); m.need(z, "null: port"); Cudd_Ref(z); Cudd_RecursiveDeref(dd, y); hold.push_back({z, true}); return z; } TT t; DdNode *y = m.build(all, 0, r, den, t), *z = nullptr; DdNode *b = Cudd_zddIsop(dd, y, y, &z); m.need(b && z, "null: isop"); Cudd_Ref(z); hold.push_back({z, true}); Cudd_Ref(b); Cudd_RecursiveDeref(dd, b); Cudd_RecursiveDeref(dd, y); return z; };
        for (int i = 0; i < 3; i++) f.push_back(zf(r.p(50) ? 30 : 60)); f.resize(9, nullptr); f.push_back(bdd(50)); DdNode *q = bdd(50); f.push_back(H(Cudd_bddAnd(dd, f[9], q))); }
      auto freeOut = [&](NV_ &o) { for (size_t i = 0; i < o.size(); i++) if (o[i]) { if (isZ(op, i)) Cudd_RecursiveDerefZdd(dd, o[i]); else Cudd_RecursiveDeref(dd, o[i]); } o.clear(); };
      // a decomposition gives parts that make up the function, whichever parts it chose
      auto parts = [&](NV_ &o, const string &how) { string N = op.name; bool con = N.size() > 10 && N.compare(N.size() - 10, 10, "ConjDecomp") == 0, dis = N.size() > 10 && N.compare(N.size() - 10, 10, "DisjDecomp") == 0; if (!con && !dis) return; DdNode *q = Cudd_NotCond(Cudd_ReadOne(dd), dis); Cudd_Ref(q); for (auto *y : o) { DdNode *t = con ? Cudd_bddAnd(dd, q, y) : Cudd_bddOr(dd, q, y); Cudd_Ref(t); Cudd_RecursiveDeref(dd, q); q = t; } bool same = q == f[0]; Cudd_RecursiveDeref(dd, q); if (!same) m.fail("wrong-parts-" + N + ": the parts do not make up the function, " + how); };
      NV_ full; Cudd_Srandom(dd, 1); verif_flush(dd); double miss0 = verif_misses(dd); if (!op.f(w, f, V, x, full)) m.fail("null: the operation gave no result without any interruption");
      long steps = std::max(0.0, verif_misses(dd) - miss0); parts(full, "not interrupted");
      // for refused allocations the steps are those the operation makes once the manager has its node memory
      if (mem) { NV_ o; verif_flush(dd); Cudd_Srandom(dd, 1); long a0 = verif_allocs; if (!op.f(w, f, V, x, o)) m.fail("null: the operation gave no result without any interruption"); steps = verif_allocs - a0; freeOut(o); }
      // the first run may leave behind variables' own nodes; from here on nothing may change
      Snap s0 = snap(dd); string last; int cut = 0, whole = 0; static const char *KN[4] = {"termination", "time limit", "node limit", "allocation failure"};
      for (auto &st : c.ops) { long used[3]; for (int rep = 0; rep < 3; rep++) { w.kind = mem ? 3 : st[0] % 3; w.k = st[1] % (steps + 2); w.asked = 0; verif_flush(dd); Cudd_ClearErrorCode(dd); Cudd_Srandom(dd, 1);
        if (w.kind == 0) { Cudd_RegisterTerminationCallback(dd, ask, nullptr); verif_strike(dd, w.k); } else if (w.kind == 1) { Cudd_SetTimeLimit(dd, 0); Cudd_SetStartTime(dd, (unsigned long)-1000); verif_strike(dd, w.k); } else if (w.kind == 3) verif_deny = 1 + w.k; else { Cudd_SetMaxLive(dd, Cudd_ReadKeys(dd) - Cudd_ReadDead(dd) + w.k); }
        NV_ o; bool ok = op.f(w, f, V, x, o); verif_deny = 0; Cudd_UnregisterTerminationCallback(dd); Cudd_UnsetTimeLimit(dd); Cudd_SetMaxLive(dd, ~0u); Cudd_ErrorType e = Cudd_ReadErrorCode(dd); string how = string(KN[w.kind]) + " at step " + std::to_string(w.k);
        if (!ok) { cut += !rep; freeOut(o); Cudd_ErrorType want = w.kind == 0 ? CUDD_TERMINATION : w.kind == 1 ? CUDD_TIMEOUT_EXPIRED : w.kind == 3 ? CUDD_MEMORY_OUT : CUDD_TOO_MANY_NODES; if (e != want) m.fail(string("error-code-") + op.name + ": no result after " + how + ", but error code " + std::to_string(e)); }
        else { whole += !rep; if (o.size() != full.size()) { if (op.det) m.fail(string("wrong-result-") + op.name + ": different number of results after " + how); } else for (size_t i = 0; i < o.size() && op.det; i++) if (o[i] != full[i] && !(op.orig && o[i] == f[0])) m.fail(string("wrong-result-") + op.name + ": a result that differs from the uninterrupted one after " + how); parts(o, how); freeOut(o); }
        Cudd_ClearErrorCode(dd); Snap s = snap(dd); if (!(s == s0)) m.fail(string(s.live > s0.live || s.refs > s0.refs ? "leak-" : "lost-") + op.name + ": " + how + (ok ? " (a result was given)" : "") + ": live nodes " + std::to_string(s0.live) + " -> " + std::to_string(s.live) + ", references " + std::to_string(s0.refs) + " -> " + std::to_string(s.refs));
        if (Cudd_DebugCheck(dd)) m.fail(string("debug-check-") + op.name + ": " + how); used[rep] = verif_blocks; }
        // the same interruption again and again must not use up memory
        if (used[2] > used[1] && used[1] > used[0]) m.fail(string("memory-") + op.name + ": " + KN[w.kind] + " at step " + std::to_string(w.k) + ": " + std::to_string(used[2] - used[1]) + " memory blocks more in use after each repetition"); }
      // and afterwards everything works as before
      NV_ o; verif_flush(dd); Cudd_Srandom(dd, 1); if (!op.f(w, f, V, x, o)) m.fail(string("null-") + op.name + ": no result after the interruptions are over"); parts(o, "after the interruptions"); if (op.det && o != full) m.fail(string("wrong-result-") + op.name + ": a different result after the interruptions are over"); freeOut(o); freeOut(full);
      v.tags.insert(string("op:") + op.name); if (cut) v.tags.insert("cut-short"); if (whole) v.tags.insert("ran-to-its-end"); int mx = op.kind == 'z' ? Cudd_zddDagSize(f[0]) : m.nodes(f[0]); v.nontrivial = cut && mx >= 6; v.sample = string(op.name) + " cut short " + std::to_string(cut) + " of " + std::to_string(c.ops.size()) + " times";
      for (auto &h : hold) if (h.second) Cudd_RecursiveDerefZdd(dd, h.first); else Cudd_RecursiveDeref(dd, h.first);
      int z = Cudd_CheckZeroRef(dd); if (z) m.fail(string("leak-") + op.name + ": " + std::to_string(z) + " nodes still referenced at the end"); Cudd_Quit(dd); });
  }
};
} // namespace abortp
