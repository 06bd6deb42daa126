// Small CDCL solver behind the IPASIR interface, so that the SAT planner of the repository can be linked and run offline.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <vector>
#include <algorithm>
#include <unistd.h>
extern "C" { long verif_sat_max_init = 0, verif_sat_seed = 0; }
namespace {
typedef int Lit; // 2*v + sign
inline Lit mk(int l) { int v = std::abs(l); return 2 * v + (l < 0); }
struct Cdcl {
  std::vector<std::vector<Lit>> cls; std::vector<std::vector<int>> watch; std::vector<signed char> val, phase, model; std::vector<int> reason, level, trail, lim; std::vector<double> act; std::vector<char> seen; double inc = 1; size_t qh = 0; bool unsat = false; std::vector<int> buf; int nv = 0; uint64_t rs = verif_sat_seed * 0x9E3779B97F4A7C15ull + 1; std::vector<int> heap, hpos; std::vector<Lit> assum;
  bool lt(int a, int b) { return act[a] > act[b]; }
  void up(int i) { int x = heap[i]; while (i > 0 && lt(x, heap[(i - 1) / 2])) { heap[i] = heap[(i - 1) / 2]; hpos[heap[i]] = i; i = (i - 1) / 2; } heap[i] = x; hpos[x] = i; }
  void down(int i) { int x = heap[i], n = heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && lt(heap[c + 1], heap[c])) c++; if (!lt(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void hins(int v) { if (hpos[v] >= 0) return; heap.push_back(v); hpos[v] = heap.size() - 1; up(heap.size() - 1); }
  int hpop() { int x = heap[0]; hpos[x] = -1; int l = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = l; hpos[l] = 0; down(0); } return x; }
  void ensure(int v) { while (nv < v) { nv++; if ((int)val.size() <= nv) { val.resize(nv + 1, 0); phase.resize(nv + 1, 0); reason.resize(nv + 1, -1); level.resize(nv + 1, 0); act.resize(nv + 1, 0); seen.resize(nv + 1, 0); hpos.resize(nv + 1, -1); watch.resize(2 * nv + 2); } if (verif_sat_seed) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; phase[nv] = (rs >> 20) & 1 ? 1 : -1; act[nv] = double((rs >> 30) & 1023) * 1e-3; } hins(nv); } }
  int lv(Lit l) { int x = val[l >> 1]; return (l & 1) ? -x : x; }
  void enq(Lit l, int r) { val[l >> 1] = (l & 1) ? -1 : 1; reason[l >> 1] = r; level[l >> 1] = lim.size(); trail.push_back(l); }
  void cancel(int lv_) { if ((int)lim.size() <= lv_) return; for (size_t i = trail.size(); i > (size_t)lim[lv_];) { i--; int v = trail[i] >> 1; phase[v] = val[v]; val[v] = 0; hins(v); } trail.resize(lim[lv_]); lim.resize(lv_); qh = trail.size(); }
  void addClause(std::vector<int> c) {
    cancel(0); std::vector<Lit> k; for (int l : c) { ensure(std::abs(l)); k.push_back(mk(l)); }
    std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end());
    for (size_t i = 0; i + 1 < k.size(); i++) if ((k[i] ^ 1) == k[i + 1]) return;
    std::vector<Lit> r; for (Lit l : k) { int x = lv(l); if (x > 0) return; if (!x) r.push_back(l); }
    if (r.empty()) { unsat = true; return; }
    if (r.size() == 1) { enq(r[0], -1); return; }
    attach(r); }
  int attach(const std::vector<Lit> &r) { cls.push_back(r); int id = cls.size() - 1; watch[r[0] ^ 1].push_back(id); watch[r[1] ^ 1].push_back(id); return id; }
  int prop() {
    while (qh < trail.size()) { Lit p = trail[qh++]; auto &w = watch[p]; size_t j = 0;
      for (size_t i = 0; i < w.size(); i++) { int id = w[i]; auto &c = cls[id]; Lit np = p ^ 1; if (c[0] == np) std::swap(c[0], c[1]); if (lv(c[0]) > 0) { w[j++] = id; continue; }
        bool f = false; for (size_t k = 2; k < c.size(); k++) if (lv(c[k]) >= 0) { std::swap(c[1], c[k]); watch[c[1] ^ 1].push_back(id); f = true; break; }
        if (f) continue; w[j++] = id; if (lv(c[0]) < 0) { for (i++; i < w.size(); i++) w[j++] = w[i]; w.resize(j); qh = trail.size(); return id; } enq(c[0], id); }
      w.resize(j); }
    return -1; }
  void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
  int solve() {
    if (unsat) return 20; cancel(0); if (prop() >= 0) { unsat = true; return 20; }
    long conf = 0, lim_ = 100;
    for (;;) { int cf = prop();
      if (cf >= 0) { if (lim.empty()) { unsat = true; return 20; } if ((int)lim.size() <= (int)assum.size() ) { /* conflict under assumptions only */ }
        std::vector<Lit> learnt{0}; int cnt = 0; Lit p = -1; size_t idx = trail.size(); int c = cf;
        do { for (Lit q : cls[c]) { if (q == p) continue; int v = q >> 1; if (!seen[v] && level[v] > 0) { bump(v); seen[v] = 1; if (level[v] >= (int)lim.size()) cnt++; else learnt.push_back(q); } } while (!seen[trail[--idx] >> 1]) {} p = trail[idx]; c = reason[p >> 1]; seen[p >> 1] = 0; cnt--; } while (cnt > 0);
        learnt[0] = p ^ 1; int bt = 0; if (learnt.size() > 1) { size_t m = 1; for (size_t i = 2; i < learnt.size(); i++) if (level[learnt[i] >> 1] > level[learnt[m] >> 1]) m = i; std::swap(learnt[1], learnt[m]); bt = level[learnt[1] >> 1]; }
        for (Lit q : learnt) seen[q >> 1] = 0; cancel(bt);
        if (learnt.size() == 1) enq(learnt[0], -1); else { int id = attach(learnt); enq(learnt[0], id); } inc /= 0.95; conf++; 
      } else { if (conf > lim_) { conf = 0; lim_ = lim_ * 11 / 10; cancel(0); continue; }
        Lit nx = -1; while (lim.size() < assum.size()) { Lit a = assum[lim.size()]; int x = lv(a); if (x > 0) { lim.push_back(trail.size()); } else if (x < 0) { cancel(0); return 20; } else { nx = a; break; } }
        if (nx < 0) { while (!heap.empty()) { int v = hpop(); if (!val[v]) { nx = 2 * v + (phase[v] <= 0); break; } } }
        if (nx < 0) { model = val; cancel(0); return 10; }
        lim.push_back(trail.size()); enq(nx, -1); } } }
};
long inits = 0;
}
extern "C" {
// verif_sat_max_init: number of formulas after which the process ends (the SAT planner has no unsolvability criterion of its own); verif_sat_seed: randomises decisions
const char *ipasir_signature() { return "verif-cdcl"; }
void *ipasir_init() { if (verif_sat_max_init && ++inits > verif_sat_max_init) { std::cout << "\nVERIF-SAT-LIMIT" << std::endl; fflush(stdout); _exit(0); } return new Cdcl(); }
void ipasir_release(void *s) { delete (Cdcl *)s; }
void ipasir_add(void *s, int l) { Cdcl *c = (Cdcl *)s; if (l) c->buf.push_back(l); else { c->addClause(c->buf); c->buf.clear(); } }
void ipasir_assume(void *s, int l) { Cdcl *c = (Cdcl *)s; c->ensure(std::abs(l)); c->assum.push_back(mk(l)); }
int ipasir_solve(void *s) { Cdcl *c = (Cdcl *)s; int r = c->solve(); c->assum.clear(); return r; }
int ipasir_val(void *s, int l) { Cdcl *c = (Cdcl *)s; int v = std::abs(l); int x = v < (int)c->model.size() ? c->model[v] : 0; return ((x > 0) == (l > 0)) ? l : -l; }
int ipasir_failed(void *, int) { return 0; }
void ipasir_set_terminate(void *, void *, int (*)(void *)) {}
void ipasir_set_learn(void *, void *, int, void (*)(void *, int *)) {}
}
