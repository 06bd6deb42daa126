// Property-check framework: deterministic parallel case generation, crash-isolated evaluation, shrinking, replay, evidence.
#pragma once
#include "htn.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef COV // coverage build, used while developing the checks: children leave through _exit
extern "C" void __gcov_dump(void);
#define _exit(x) (__gcov_dump(), _exit(x))
#endif
namespace fw {
using namespace ref;

struct Case {
  Problem p; bool hasP = false;
  vector<string> cfg;            // engine configurations
  map<string, long> ext;         // scalar parameters
  vector<vector<long>> ops;      // operation list (for model-based checks)
};
struct Verdict {
  enum K { OK, FAIL, SKIP } k = OK; string cls, msg; set<string> tags; bool nontrivial = false; string sample;
  static Verdict fail(const string &c, const string &m) { Verdict v; v.k = FAIL; v.cls = c; v.msg = m; return v; }
};
inline string ser(const Case &c, const string &prop, const string &cls, const string &msg) {
  std::ostringstream o; o << "property " << prop << "\nclass " << cls << "\n"; string m = msg; for (char &x : m) if (x == '\n') x = ' '; o << "message " << m.substr(0, 1500) << "\n";
  for (auto &x : c.cfg) o << "cfg " << x << "\n";
  for (auto &e : c.ext) o << "ext " << e.first << " " << e.second << "\n";
  for (auto &v : c.ops) { o << "op"; for (long x : v) o << " " << x; o << "\n"; }
  if (c.hasP) o << "problem\n" << to_sas(c.p);
  return o.str();
}
inline bool deser(std::istream &in, Case &c, string &prop, string &cls) {
  string l; c = Case();
  while (std::getline(in, l)) {
    std::istringstream s(l); string k; s >> k;
    if (k == "property") s >> prop; else if (k == "class") s >> cls; else if (k == "message") {}
    else if (k == "cfg") c.cfg.push_back(l.size() > 4 ? l.substr(4) : "");
    else if (k == "ext") { string n; long v; s >> n >> v; c.ext[n] = v; }
    else if (k == "op") { vector<long> v; long x; while (s >> x) v.push_back(x); c.ops.push_back(v); }
    else if (k == "problem") { c.hasP = true; return from_sas(in, c.p); }
    else if (k.empty() || k[0] == '#') {} else return false;
  }
  return true;
}

// ---------- running things in a child ----------
struct Run { int sig = 0, code = 0; bool cpu = false, killed = false; string out; };
inline string &scratch() { static string s; return s; }
inline Run run_child(const std::function<void()> &f, int cpuMs = 10000, long memMB = 3000, bool quietErr = true) {
  static int fd = -1; static pid_t owner = 0; if (fd < 0 || owner != getpid()) { if (fd >= 0) close(fd); fd = memfd_create("out", 0); owner = getpid(); } // never shared with the process that replayed the known findings
  if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd, 1); if (quietErr) { dup2(fd, 2); }
    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
    rlimit rl{(rlim_t)(cpuMs / 1000 + 2), (rlim_t)(cpuMs / 1000 + 4)}; setrlimit(RLIMIT_CPU, &rl);
    signal(SIGPROF, SIG_DFL); itimerval tv{{0, 0}, {cpuMs / 1000, (cpuMs % 1000) * 1000}}; setitimer(ITIMER_PROF, &tv, nullptr);
    rlimit c0{0, 0}; setrlimit(RLIMIT_CORE, &c0);
    rlimit fs{64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &fs);
#ifndef NO_AS_LIMIT
    rlimit as{(rlim_t)memMB << 20, (rlim_t)memMB << 20}; setrlimit(RLIMIT_AS, &as);
#endif
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGXCPU, SIGTERM, SIGINT}) signal(s, SIG_DFL);
    f(); std::cout.flush(); fflush(stdout); _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Run r; if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.cpu = r.sig == SIGPROF || r.sig == SIGXCPU || r.sig == SIGKILL; r.killed = r.sig == SIGKILL; } else r.code = WEXITSTATUS(st);
  struct stat sb; fstat(fd, &sb); r.out.resize(std::min<off_t>(sb.st_size, 32 << 20)); lseek(fd, 0, SEEK_SET); size_t off = 0; while (off < r.out.size()) { ssize_t k = read(fd, &r.out[off], r.out.size() - off); if (k <= 0) break; off += k; }
  if (sb.st_size >= (64 << 20) - 4096) r.cpu = true;
  return r;
}

struct Prop {
  virtual ~Prop() {}
  virtual string id() = 0;
  virtual string rule() = 0;                                  // stated rule for non-trivial cases
  virtual Case gen(uint64_t seed, long i, bool thorough) = 0; // pure function of its arguments
  virtual Verdict eval(const Case &c) = 0;
  virtual long quickN() = 0; virtual long thoroughN() { return quickN() * 20; }
  virtual vector<string> requiredTags() { return {}; }        // classes that must be reached for a run to count as conclusive
  // problem-specific invariants a shrunk problem must keep
  virtual bool shrinkOk(const Case &) { return true; }
};

inline string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

inline Case shrink(Prop &P, Case c, const string &cls, long budget, int maxSec = 90) {
  if (getenv("VERIF_NOSHRINK")) return c;
  timeval s0; gettimeofday(&s0, 0);
  auto bad = [&](const Case &d) { timeval s1; gettimeofday(&s1, 0); if (s1.tv_sec - s0.tv_sec > maxSec) budget = 0; if (budget-- <= 0) return false; if (!P.shrinkOk(d)) return false; Verdict v = P.eval(d); return v.k == Verdict::FAIL && v.cls == cls; };
  bool prog = true;
  while (prog && budget > 0) {
    prog = false;
    if (c.cfg.size() > 1) for (size_t i = 0; i < c.cfg.size(); i++) { Case d = c; d.cfg = {c.cfg[i]}; if (bad(d)) { c = d; prog = true; break; } }
    if (c.cfg.size() > 2) for (size_t i = 0; i < c.cfg.size(); i++) { Case d = c; d.cfg.erase(d.cfg.begin() + i); if (bad(d)) { c = d; prog = true; break; } }
    for (auto &e : c.ext) if (e.first[0] != '_' && e.second != 0) { for (long v : {0L, e.second / 2, e.second - 1}) { if (v == e.second) continue; Case d = c; d.ext[e.first] = v; if (bad(d)) { c = d; prog = true; break; } } }
    if (!c.ops.empty()) {
      for (size_t ch = std::max<size_t>(1, c.ops.size() / 2); ch >= 1; ch /= 2) { for (size_t i = 0; i + ch <= c.ops.size() && budget > 0;) { Case d = c; d.ops.erase(d.ops.begin() + i, d.ops.begin() + i + ch); if (bad(d)) { c = d; prog = true; } else i += ch; } if (ch == 1) break; }
      for (size_t i = 0; i < c.ops.size() && budget > 0; i++) for (size_t j = 1; j < c.ops[i].size(); j++) for (long v : {0L, 1L, c.ops[i][j] / 2, c.ops[i][j] - 1}) { if (v == c.ops[i][j] || v < 0) continue; Case d = c; d.ops[i][j] = v; if (bad(d)) { c = d; prog = true; break; } }
    }
    if (c.hasP) { bool any = true; while (any && budget > 0) { any = false; Problem cur = c.p; reductions(cur, [&](const Problem &q) { if (to_sas(q) == to_sas(cur)) return false; Case d = c; d.p = q; if (bad(d)) { c = d; any = prog = true; return true; } return budget <= 0; }); } }
  }
  return c;
}

// shrinks in a process of its own: a candidate that brings down the check itself must not cost the report
inline Case shrink_safely(Prop &P, const Case &c, const string &cls, long budget, const string &dir) {
  string f = dir + "/shrunk"; unlink(f.c_str()); fflush(0); pid_t pid = fork();
  if (pid == 0) { string old = scratch(); scratch() = dir + "/shrink"; mkdir(scratch().c_str(), 0700); Case s = shrink(P, c, cls, budget); std::ofstream o(f + ".new"); o << ser(s, "", "", ""); o.close(); rename((f + ".new").c_str(), f.c_str()); _exit(0); }
  if (pid < 0) return c; int st = 0; for (int i = 0; i < 2000; i++) { if (waitpid(pid, &st, WNOHANG) == pid) { pid = 0; break; } usleep(100000); } if (pid) { kill(pid, SIGKILL); waitpid(pid, &st, 0); }
  std::ifstream in(f); Case s; string a, b; return in && deser(in, s, a, b) ? s : c;
}

struct Known { string text, prop; Case c; string cls; };
inline void rmtree(const string &d) { DIR *dd = opendir(d.c_str()); if (!dd) return; while (dirent *e = readdir(dd)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat sb; if (!lstat(f.c_str(), &sb) && S_ISDIR(sb.st_mode)) rmtree(f); else unlink(f.c_str()); } closedir(dd); rmdir(d.c_str()); }

inline int main_for(vector<Prop *> props, int argc, char **argv) {
  string pid, replay, shr, replayDir = "/verif/replays", evDir = "/verif/evidence", tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick"; long N = -1, only = -1; uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1; int W = sysconf(_SC_NPROCESSORS_ONLN); bool verbose = false, cont = false, noEv = false; int maxSec = -1;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--prop") pid = nx(); else if (a == "--replay") replay = nx(); else if (a == "--tier") tier = nx(); else if (a == "--n") N = atol(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--case") only = atol(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--survey") cont = true; else if (a == "--evdir") evDir = nx(); else if (a == "--replaydir") replayDir = nx(); else if (a == "--noev") noEv = true; else if (a == "--shrink") shr = nx(); else if (a == "--maxsec") maxSec = atoi(nx().c_str()); }
  if (maxSec < 0) maxSec = tier == "thorough" ? 7200 : 500;
  Prop *P = nullptr; for (auto *x : props) if (x->id() == pid) P = x; if (!P) { fprintf(stderr, "unknown property\n"); return 2; }
  char tmpl[] = "/tmp/pandaverif.XXXXXX"; if (!mkdtemp(tmpl)) return 2; string base = tmpl; scratch() = base + "/main"; mkdir(scratch().c_str(), 0700);
  struct Cleaner { string d; pid_t me; ~Cleaner() { if (getpid() == me) rmtree(d); } } cl{base, getpid()};
  if (!shr.empty()) { std::ifstream in(shr); Case c; string pr, cls; if (!deser(in, c, pr, cls)) return 2; Case s = shrink(*P, c, cls, 3000, 300); Verdict v = P->eval(s); std::cout << ser(s, pid, v.cls, v.msg); return 0; }
  if (!replay.empty()) {
    std::ifstream in(replay); Case c; string pr, cls; if (!deser(in, c, pr, cls)) { fprintf(stderr, "bad replay file\n"); return 2; }
    Verdict v = P->eval(c);
    if (v.k == Verdict::FAIL) { printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.cls.c_str(), v.msg.c_str(), pid.c_str(), replay.c_str()); return 1; }
    printf("replay: property holds (%s) %s\n", v.k == Verdict::SKIP ? "skipped" : "ok", v.msg.c_str()); return 0;
  }
  bool thorough = tier == "thorough";
  if (only >= 0) { Case c = P->gen(seed, only, thorough); Verdict v = P->eval(c); std::cout << ser(c, pid, v.cls, v.msg); std::cout << (v.k == Verdict::FAIL ? "FAIL " : v.k == Verdict::SKIP ? "SKIP " : "OK ") << v.cls << " " << v.msg << "\n"; for (auto &t : v.tags) std::cout << "tag " << t << "\n"; std::cout << "nontrivial " << v.nontrivial << "\n"; return 0; }
  if (N < 0) N = thorough ? P->thoroughN() : P->quickN();
  timeval t0; gettimeofday(&t0, 0);
  // known findings: replayed first
  vector<Known> known;
  { string kd = string(getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : "/verif") + "/known"; DIR *d = opendir(kd.c_str()); vector<string> fs; if (d) { while (dirent *e = readdir(d)) { string n = e->d_name; if (n.size() > 5 && n.substr(n.size() - 5) == ".case") fs.push_back(n); } closedir(d); } std::sort(fs.begin(), fs.end());
    for (auto &f : fs) { std::ifstream in(kd + "/" + f); Known k; if (deser(in, k.c, k.prop, k.cls) && k.prop == pid) { k.text = f; Verdict v = P->eval(k.c); if (v.k == Verdict::FAIL) printf("KNOWN-FINDING: property=%s %s (%s)\n", pid.c_str(), f.c_str(), v.cls.c_str()); known.push_back(k); } } }
  long *minfail = (long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *minfail = LONG_MAX; long *nfail = minfail + 1; *nfail = 0; long *nextI = minfail + 2; *nextI = 0;
  fflush(stdout); std::cout.flush(); vector<pid_t> kids;
  for (int w = 0; w < W; w++) { pid_t k = fork(); if (k == 0) {
      scratch() = base + "/w" + std::to_string(w); mkdir(scratch().c_str(), 0700);
      std::ofstream st(base + "/stats" + std::to_string(w)); long ev = 0, nt = 0, sk = 0; map<string, long> tags; std::unordered_set<uint64_t> dist; vector<string> samples; bool trunc = false;
      for (;;) { long i = __sync_fetch_and_add(nextI, 1); if (i >= N) break; if (!cont && i > *minfail) break;
        timeval n; gettimeofday(&n, 0); if (n.tv_sec - t0.tv_sec > maxSec) { trunc = true; break; }
        Case c = P->gen(seed, i, thorough); Verdict v = P->eval(c); ev++;
        if (v.k == Verdict::SKIP) { sk++; tags["skip:" + v.cls]++; }
        for (auto &t : v.tags) tags[t]++;
        string s; if (v.nontrivial) { s = ser(c, "", "", ""); if (dist.insert(std::hash<string>()(s)).second) { nt++; if (samples.size() < 2 && s.size() < 4000) samples.push_back((v.sample.empty() ? "" : v.sample + " | ") + s); } }
        if (v.k == Verdict::FAIL) { int rep = 1; for (int k = 0; k < 2; k++) { Verdict x = P->eval(c); rep += x.k == Verdict::FAIL; } if (rep < 2) { tags["unstable:" + v.cls]++; continue; } __sync_fetch_and_add(nfail, 1); tags["FAIL:" + v.cls]++; if (cont || verbose) { std::ofstream ff(base + "/../survey." + pid + "." + std::to_string(i)); ff << ser(c, pid, v.cls, v.msg); } long m; do { m = *minfail; if (i >= m) break; } while (!__sync_bool_compare_and_swap(minfail, m, i)); } }
      st << ev << " " << nt << " " << sk << " " << trunc << "\n" << tags.size() << "\n"; for (auto &t : tags) st << t.second << " " << t.first << "\n"; st << samples.size() << "\n"; for (auto &s : samples) st << jesc(s) << "\n"; st << dist.size() << "\n"; for (auto h : dist) st << h << "\n"; st.close(); _exit(0); } kids.push_back(k); }
  bool workerDied = false;
  for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { workerDied = true; fprintf(stderr, "worker died: %d\n", st); } }
  long ev = 0, nt = 0, sk = 0; bool trunc = false; map<string, long> tags; vector<string> samples; std::unordered_set<uint64_t> dist;
  for (int w = 0; w < W; w++) { std::ifstream st(base + "/stats" + std::to_string(w)); long a = 0, b = 0, c = 0, d = 0; st >> a >> b >> c >> d; ev += a; sk += c; trunc |= d; size_t n = 0; st >> n; for (size_t i = 0; i < n; i++) { long k; string t; st >> k; st.get(); std::getline(st, t); tags[t] += k; } n = 0; st >> n; st.get(); for (size_t i = 0; i < n; i++) { string s; std::getline(st, s); if (samples.size() < 5) samples.push_back(s); } n = 0; st >> n; for (size_t i = 0; i < n; i++) { uint64_t h; st >> h; dist.insert(h); } }
  nt = dist.size();
  timeval t1; gettimeofday(&t1, 0); double wall = (t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) / 1e6;
  string result = "held", rpath; int rc = 0;
  printf("%s tier=%s seed=%llu cases=%ld nontrivial(distinct)=%ld skipped=%ld wall=%.1fs%s\n", pid.c_str(), tier.c_str(), (unsigned long long)seed, ev, nt, sk, wall, trunc ? " (stopped at the time cap)" : "");
  for (auto &t : tags) printf("  %-46s %ld\n", t.first.c_str(), t.second);
  if (*minfail != LONG_MAX) {
    long fi = *minfail; Case c = P->gen(seed, fi, thorough); Verdict v; int rep = 0; for (int k = 0; k < 5; k++) { Verdict x = P->eval(c); if (x.k == Verdict::FAIL) { rep++; v = x; } }
    if (rep < 2) { printf("case %ld failed once but %d/5 on replay: not reported\n", fi, rep); result = "unstable"; }
    else {
      Case s = shrink_safely(*P, c, v.cls, cont ? 300 : 1500, base); Verdict sv = P->eval(s); if (sv.k != Verdict::FAIL) { s = c; sv = v; }
      bool kn = false; for (auto &k : known) { string a = ser(k.c, "", "", ""), b = ser(s, "", "", ""); if (a == b) kn = true; }
      if (kn) printf("KNOWN-FINDING: property=%s (shrunk to a listed finding)\n", pid.c_str());
      else { mkdir(replayDir.c_str(), 0755); rpath = replayDir + "/" + pid + "-s" + std::to_string(seed) + "-" + std::to_string(fi) + ".case"; std::ofstream f(rpath); f << ser(s, pid, sv.cls, sv.msg); f.close();
        printf("first failing case %ld: %s: %s\n(original: %s)\n", fi, sv.cls.c_str(), sv.msg.substr(0, 3000).c_str(), v.msg.substr(0, 600).c_str()); printf("VIOLATION property=%s replay=%s\n", pid.c_str(), rpath.c_str()); rc = 1; result = "violated"; }
    }
  }
  vector<string> missing; if (rc == 0 && ev >= P->quickN()) for (auto &t : P->requiredTags()) if (!tags.count(t)) missing.push_back(t);
  for (auto &m : missing) printf("note: class '%s' was not reached in this run\n", m.c_str());
  if (workerDied) printf("note: a worker process of the check itself died\n");
  if (!noEv) { mkdir(evDir.c_str(), 0755); std::ofstream e(evDir + "/" + pid + ".json");
    e << "{\n \"property\": \"" << pid << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"wall_s\": " << wall << ",\n \"result\": \"" << result << "\",\n \"coverage\": {\n  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << nt << ",\n  \"skipped\": " << sk << ",\n  \"truncated\": " << (trunc ? "true" : "false") << ",\n  \"rule\": \"" << jesc(P->rule()) << "\",\n  \"classes\": {";
    bool f = true; for (auto &t : tags) { e << (f ? "" : ",") << "\n   \"" << jesc(t.first) << "\": " << t.second; f = false; }
    e << "\n  },\n  \"missing_classes\": ["; f = true; for (auto &m : missing) { e << (f ? "" : ", ") << "\"" << jesc(m) << "\""; f = false; }
    e << "],\n  \"samples\": ["; f = true; for (auto &s : samples) { e << (f ? "" : ",") << "\n   \"" << s << "\""; f = false; } e << "\n  ]\n },\n \"violation\": " << (rpath.empty() ? "null" : "\"" + jesc(rpath) + "\"") << "\n}\n"; }
  return rc;
}
} // namespace fw
