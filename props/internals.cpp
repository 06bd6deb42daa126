#include "inproc.hpp"
using namespace fw; using namespace progression;
static GenOpt baseOpt(Rng &r, bool thorough, int ord = -1) {
  GenOpt o; int k = ord >= 0 ? ord : r.upto(3); o.ord = k == 0 ? O_TO : k == 1 ? O_CHAIN : O_PO;
  o.rec = r.p(60) ? 0 : r.p(60) ? 1 : 2;
  o.maxF = r.p(70) ? 5 : 9; o.maxA = r.p(75) ? 6 : 12; o.maxAbs = r.p(75) ? 4 : 7; o.maxMeth = r.in(1, 4); o.maxSub = r.in(2, thorough && r.p(30) ? 5 : 4);
  o.multiTop = r.p(15); o.guide = r.p(50) ? 85 : 30; o.twin = r.p(50) ? r.in(20, 90) : 0; return o; }
static const char *ordClass(const Problem &p) {
  if (totally_ordered(p)) return "total-order";
  bool par = true; for (auto &m : p.met) { if (m.task == p.init) { if (!method_chains(m)) par = false; } else if (!method_total(m)) par = false; for (int s : m.sub) if (s == p.init) par = false; }
  return par ? "parallel-chains" : "partial-order"; }
static long ex(const Case &c, const char *k) { auto it = c.ext.find(k); return it == c.ext.end() ? 0 : it->second; }
static Problem withInfl(const Case &c) { return inflate(c.p, ex(c, "_iseed"), ex(c, "dummyfacts"), ex(c, "dummyacts")); }
static void maybeInflate(Rng &r, Case &c, int pct = 20) { if (r.p(pct)) { c.ext["_iseed"] = r.upto(1000000); c.ext["dummyfacts"] = r.p(50) ? r.in(1, 10) : r.in(20, 140); if (r.p(60)) c.ext["dummyacts"] = r.p(50) ? r.in(1, 10) : r.in(30, 150); } }
static string S(long x) { return std::to_string(x); }

struct P06 : Prop { // duplicate detection is exact
  string id() override { return "P06"; }
  string rule() override { return "A case is a generated HTN problem whose search nodes (reached with the planner's own successor functions) are inserted, with costs, into a duplicate-detection structure; the answer is compared with an explicit list and an exact isomorphism test. Non-trivial when the sequence contains both new and duplicate nodes."; }
  long quickN() override { return 120000; } long thoroughN() override { return 6000000; }
  vector<string> requiredTags() override { return {"total-order", "parallel-chains", "partial-order", "duplicate", "reopened", "same-label-different-network"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 6, i); Case c; c.hasP = true; c.p = r.p(45) ? isoTrap(r, false) : generate(r, baseOpt(r, th)); maybeInflate(r, c, 20);
    c.ext["_seed"] = r.upto(1 << 30); c.ext["_limit"] = r.in(20, th ? 300 : 140); for (const char *k : {"notask", "noseq", "notopo", "nopairs", "nolayers", "nopar", "noreopen"}) c.ext[k] = r.p(20); if (r.p(50)) c.ext["fspan"] = r.in(1, 5); return c; }
  Verdict eval(const Case &c) override { Verdict v0; v0.tags.insert(ordClass(c.p)); Problem p = withInfl(c);
    return in_child(v0, [&](Verdict &v) { Rng r(ex(c, "_seed"), 3, 3); Model *m = load(p); string oc = ordClass(c.p); bool seqMode = oc == "total-order" || (oc == "parallel-chains" && !ex(c, "nopar"));
      auto nodes = explore(m, r, ex(c, "_limit")); if (r.p(50)) r.shuffle(nodes); bool noRe = ex(c, "noreopen");
      VisitedList vl(m, false, noRe, !ex(c, "notask"), !ex(c, "noseq"), seqMode || !ex(c, "notopo"), !ex(c, "nopairs"), !ex(c, "nolayers"), true, !ex(c, "nopar"));
      // one entry per accepted insertion; "same presentation" = literally the same steps again (a copy of an earlier node)
      struct Seen { Net g; vector<bool> st; int f; size_t src; }; vector<Seen> seen; int fs = ex(c, "fspan"); bool dup = false, nw = false;
      for (size_t i = 0; i < nodes.size(); i++) {
        size_t src = i > 2 && r.p(25) ? r.upto(i) : i; searchNode *n = new searchNode(*nodes[src]); int f = fs ? r.upto(fs + 1) : 0; n->fValue = f; Net g = net_of(n); if (g.task.size() > 24) continue;
        bool sameLabels = false, iso = false, isoCheap = false, looseCheap = false, sameSrcCheap = false; auto b = g.task; std::sort(b.begin(), b.end()); const Seen *other = nullptr;
        for (auto &s : seen) if (s.st == n->state) { auto a = s.g.task; std::sort(a.begin(), a.end()); if (a != b) continue; bool covers = noRe || s.f <= f;
          if (isomorphic(s.g.task, s.g.e, g.task, g.e)) { iso = true; if (covers) { isoCheap = true; if (s.src == src) sameSrcCheap = true; } } else if (isomorphic(s.g.task, s.g.c, g.task, g.c)) { if (covers) looseCheap = true; } else { sameLabels = true; other = &s; } }
        bool got = vl.insertVisi(n);
        if (!got && !isoCheap) {
          if (looseCheap) { v.tags.insert("equal-up-to-redundant-edges"); continue; } // same partial order, drawn with redundant edges: either answer is right
          v.k = Verdict::FAIL; v.cls = iso ? "cheaper-node-pruned" : "new-node-pruned"; v.msg = "a node not equal to any earlier one (or cheaper than all equal ones) is reported as already seen: " + show(g, m) + " (insertion " + S(i) + ")"; if (other) v.msg += "\n  earlier node with equal tasks and state: " + show(other->g, m); return; }
        // totally ordered and parallel-chain networks have one canonical form, so every repetition must be recognised; partially ordered ones at least when presented the same way
        if (got && (seqMode ? isoCheap : sameSrcCheap)) { v.k = Verdict::FAIL; v.cls = "duplicate-not-detected"; v.msg = "an exact repetition is reported as new: " + show(g, m) + " (insertion " + S(i) + ")"; return; }
        if (got) { if (!iso) nw = true; else v.tags.insert(isoCheap ? "missed-partial-order-duplicate" : "reopened"); seen.push_back({g, n->state, f, src}); if (sameLabels) v.tags.insert("same-label-different-network"); } else { dup = true; v.tags.insert("duplicate"); } }
      v.nontrivial = dup && nw; }, 5000, false); } // comparing two networks may take exponential time
};
#include "model.hpp"
#include "heur.hpp"
#include "inv.hpp"
int main(int argc, char **argv) { return main_for({new P06, new P05, new P07, new P10, new I19}, argc, argv); }
