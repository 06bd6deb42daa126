// Properties of the vendored decision-diagram library, each decided by random operation sequences against explicit tables.
#include <malloc.h>
#include "fw.hpp"
#include <bitset>
#include <cmath>
#include <functional>
#include <unordered_map>
#include "mtr.h"
#include "epd.h"
#include "st.h"
#include "cudd.h"
#include "dddmp.h"
#undef fail
using namespace fw;
static Verdict cu_child(const std::function<void(Verdict &)> &f, int cpuMs = 4000) {
  Verdict v; Run r = run_child([&]() {
    Verdict w; try { f(w); } catch (const string &e) { size_t p = e.find(": "); w.k = Verdict::FAIL; w.cls = e.substr(0, p); w.msg = p == string::npos ? e : e.substr(p + 2); }
    fflush(stdout); std::ostringstream o; o << "\n@@BEGIN\n" << int(w.k) << " " << w.nontrivial << "\n" << w.cls << "\n"; string m = w.msg; for (char &c : m) if (c == '\n') c = ' '; o << m << "\n" << w.sample << "\n" << w.tags.size() << "\n"; for (auto &t : w.tags) o << t << "\n"; o << "@@END\n";
    string z = o.str(); size_t q = 0; while (q < z.size()) { ssize_t k = write(1, z.data() + q, z.size() - q); if (k <= 0) break; q += k; } _exit(0);
  }, cpuMs);
  size_t b = r.out.rfind("\n@@BEGIN\n");
  if (r.cpu && r.killed) { v.k = Verdict::SKIP; v.cls = "cpu-limit"; return v; }
  if (r.cpu) { v.k = Verdict::FAIL; v.cls = "does-not-terminate"; v.msg = "still running after " + std::to_string(cpuMs) + " ms"; return v; }
  if (r.sig || r.code || b == string::npos) { string m = r.sig ? "signal " + std::to_string(r.sig) : "exit code " + std::to_string(r.code); size_t p = r.out.find("ERROR: AddressSanitizer"); if (p == string::npos) p = r.out.find("runtime error:"); m += " | " + (p != string::npos ? r.out.substr(p, 900) : r.out.substr(0, 300)); v.k = Verdict::FAIL; v.cls = "crash"; size_t q = r.out.rfind("@op "); if (q != string::npos) { v.cls += "-" + r.out.substr(q + 4, r.out.find('\n', q) - q - 4); } if (m.find("@op ") != string::npos) m = m.substr(0, m.find(" | ")) + " " + (q == string::npos ? "" : r.out.substr(q)); v.msg = m; return v; }
  std::istringstream in(r.out.substr(b + 9)); int k, nt; size_t n; in >> k >> nt; in.get(); string m; std::getline(in, v.cls); std::getline(in, v.msg); std::getline(in, v.sample); in >> n; in.get(); for (size_t i = 0; i < n; i++) { std::getline(in, m); v.tags.insert(m); }
  v.k = Verdict::K(k); v.nontrivial = nt; return v;
}
#include "cudd_bdd.hpp"
#include "cudd_abort.hpp"
int main(int argc, char **argv) {
  vector<Prop *> ps; for (auto *p : bddProps()) ps.push_back(p);
  ps.push_back(new abortp::P(false)); ps.push_back(new abortp::P(true));
  return main_for(ps, argc, argv);
}
