// P14: the BDD-based planner.
struct P14 : Prop {
  string id() override { return "P14"; }
  string rule() override { return "A case is a generated totally ordered HTN problem whose methods have one or two subtasks, given to the symbolic planner; the reference solver computes the optimal cost. Non-trivial when the problem is solvable with a verified plan of two or more actions."; }
  long quickN() override { return 50000; } long thoroughN() override { return 3000000; }
  vector<string> requiredTags() override { return {"solved", "unsolvable", "recursive", "cost:0", "cost:1-3", "cost:4-9", "cost:10+"}; }
  Case gen(uint64_t seed, long i, bool th) override { Rng r(seed, 14, i); Case c; c.hasP = true; GenOpt o = baseOpt(r, th, 0); o.maxSub = 2; o.guide = r.p(60) ? 90 : 30; c.p = generate(r, o); return c; }
  Verdict eval(const Case &c) override {
    Verdict v; ptags(c, v); for (auto &m : c.p.met) if (m.sub.size() > 2) { v.k = Verdict::SKIP; v.cls = "subtasks"; return v; }
    int ref = ref_solve(c.p, 0, 6000); if (ref == -2) { v.k = Verdict::SKIP; v.cls = "reference-undecided"; return v; }
    Run r = run_engine(c.p, "-b", 3000); if (r.killed) { v.tags.insert("cpu-limit"); return v; } if (r.cpu) return bad(v, "does-not-terminate", "still running after 3 s of processor time"); if (r.sig || r.code) return bad(v, "crash", crashmsg(r));
    bool un = r.out.find("Problem is unsolvable") != string::npos, goal = r.out.find("Goal reached!") != string::npos, plan = r.out.find("==>\n") != string::npos;
    if (un && ref >= 0) return bad(v, "unsolvable-but-solvable", ""); if (goal && ref < 0) return bad(v, "solved-but-unsolvable", ""); if (!un && !goal) return bad(v, "no-answer", "");
    if (goal) { long len = atol(r.out.c_str() + r.out.find("Goal reached! Length=") + 21); if (len != ref) return bad(v, "not-optimal", std::to_string(len) + " vs " + std::to_string(ref)); if (!plan) return bad(v, "no-plan", ""); Plan pl; string err; int cst = 0; size_t b = 0; if (!parse_plan(r.out, pl, err, &b) || !verify_plan(c.p, pl, err, &cst)) return bad(v, "invalid-plan", err); if (cst != len) return bad(v, "plan-cost", ""); v.tags.insert("solved"); v.tags.insert(len == 0 ? "cost:0" : len < 4 ? "cost:1-3" : len < 10 ? "cost:4-9" : "cost:10+"); v.nontrivial = pl.prim.size() >= 2; v.sample = std::to_string(pl.prim.size()) + " actions, cost " + std::to_string(len); } else v.tags.insert("unsolvable");
    return v;
  }
};
