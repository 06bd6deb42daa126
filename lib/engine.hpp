// Runs the planner's main program in a forked child on a problem given as a SAS file.
#pragma once
#include "fw.hpp"
#include <getopt.h>
int engine_main(int argc, char **argv);
extern "C" long verif_sat_max_init, verif_sat_seed;
namespace fw {
inline vector<string> words(const string &s) { std::istringstream i(s); vector<string> r; string x; while (i >> x) r.push_back(x); return r; }
inline void write_file(const string &f, const string &s) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(fd); }
// must be called inside the child
inline void call_engine(const string &cfg, const string &file, long satLimit = 0) {
  vector<string> a{"pandaPIengine"}; for (auto &w : words(cfg)) a.push_back(w); if (!file.empty()) a.push_back(file);
  vector<char *> v; for (auto &x : a) v.push_back(strdup(x.c_str())); v.push_back(nullptr);
  optind = 1; verif_sat_max_init = satLimit;
  int rc = engine_main(a.size(), v.data()); std::cout.flush(); fflush(stdout); _exit(rc);
}
inline Run run_engine(const Problem &p, const string &cfg, int cpuMs = 10000, long satLimit = 0, long satSeed = 0) {
  string f = scratch() + "/in.sas"; write_file(f, to_sas(p));
  return run_child([&]() { verif_sat_seed = satSeed; call_engine(cfg, f, satLimit); }, cpuMs);
}
struct Out { enum { SOLVED, UNSOLVABLE, TIMEOUT, NONE } st = NONE; long length = -1, cost = -1; };
inline Out parse_out(const string &o) {
  Out r; size_t p = o.find("- Status: ");
  if (p != string::npos) { string l = o.substr(p + 10, o.find('\n', p) - p - 10); if (l == "Solved") r.st = Out::SOLVED; else if (l == "Proven unsolvable") r.st = Out::UNSOLVABLE; else if (l == "Timeout") r.st = Out::TIMEOUT; }
  p = o.find("- Found solution of length "); if (p != string::npos) r.length = atol(o.c_str() + p + 27);
  p = o.find("- Total costs of actions: "); if (p != string::npos) r.cost = atol(o.c_str() + p + 26);
  return r;
}
inline string crashmsg(const Run &r) {
  string m = r.sig ? "signal " + std::to_string(r.sig) : "exit code " + std::to_string(r.code); size_t p = r.out.find("ERROR: AddressSanitizer"); if (p == string::npos) p = r.out.find("runtime error:"); if (p != string::npos) { size_t b = r.out.rfind('\n', p); m += " | " + r.out.substr(b == string::npos ? 0 : b + 1, 900); } return m;
}
} // namespace fw
