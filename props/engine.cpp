#include "prog.hpp"
#include "hddl.hpp"
#include "sat.hpp"
#include "bdd.hpp"
#include "trans.hpp"
extern "C" { long verif_fake_clock_ms = 0; static long fake_now = 1700000000000L; int __real_gettimeofday(timeval *, void *);
int __wrap_gettimeofday(timeval *t, void *z) { if (!verif_fake_clock_ms) return __real_gettimeofday(t, z); fake_now += verif_fake_clock_ms; t->tv_sec = fake_now / 1000; t->tv_usec = fake_now % 1000 * 1000; return 0; } }
// the planner asks for a cache of 16 million entries, which takes longer to allocate than the test problems to solve
extern "C" { void *__real_Cudd_Init(unsigned, unsigned, unsigned, unsigned, unsigned long); void *__wrap_Cudd_Init(unsigned v, unsigned z, unsigned s, unsigned c, unsigned long m) { return __real_Cudd_Init(v, z, std::min(s, 256u), std::min(c, 1u << 14), m); } }
// Memory safety: the same generated inputs and runs as the properties above in a build that stops at the first bad access or undefined operation.
struct P12 : Prop {
  vector<pair<Prop *, int>> in{{new P01, 4}, {new P02, 1}, {new P04, 2}, {new P08, 1}, {new P11, 5}, {new P14, 3}, {new P15, 5}, {new P16, 3}, {new P18, 5}, {new P19, 1}};
  string id() override { return "P12"; }
  string rule() override { return "A case is a case of one of the properties P01, P02, P04, P08, P11, P14, P15, P16, P18, P19 (weights 4:1:2:1:5:3:5:3:5:1) run in a build with address and undefined-behaviour checks and with fresh memory filled with a pattern; only abnormal ends are judged. It is non-trivial when it is so for the inner property (a plan was printed, a formula decided, ...)."; }
  long quickN() override { return 8000; } long thoroughN() override { return 1000000; }
  vector<string> requiredTags() override { vector<string> r; for (auto &x : in) r.push_back("in:" + x.first->id()); return r; }
  Prop *inner(long k) { for (auto &x : in) if (x.first->id() == "P" + string(k < 10 ? "0" : "") + std::to_string(k)) return x.first; return in[0].first; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 12, i); int t = 0; for (auto &x : in) t += x.second; int k = r.upto(t); Prop *P = 0; for (auto &x : in) { if (k < x.second) { P = x.first; break; } k -= x.second; } Case c = P->gen(seed + 77, i, th); c.ext["_inner"] = atol(P->id().c_str() + 1); return c; }
  bool shrinkOk(const Case &c) override { return inner(c.ext.at("_inner"))->shrinkOk(c); }
  Verdict eval(const Case &c) override {
    Prop *P = inner(c.ext.at("_inner")); Verdict v = P->eval(c); v.tags.clear(); v.tags.insert("in:" + P->id()); if (v.nontrivial) v.tags.insert("nontrivial:" + P->id());
    if (v.k == Verdict::FAIL && v.cls != "crash") { v.tags.insert("other:" + P->id() + ":" + v.cls); v.k = Verdict::OK; v.cls = v.msg = ""; }
    return v; }
};
int main(int argc, char **argv) { return main_for({new P01, new P02, new P03, new P04, new P08, new P09, new P11, new P15, new P16, new P17, new P14, new P18, new P19, new P12}, argc, argv); }
