// A small CDCL solver behind the IPASIR interface. Which model of a satisfiable formula is
// returned, and whether a call is interrupted, is decided by the simulator.
#include "ipasir_sim.hpp"
#include "simrt.hpp"
#include <algorithm>
#include <cstdlib>
#include <vector>
#include <unistd.h>
using namespace std;
namespace vsim {
SatCfg SATC;
static long g_solves, g_work;
static void work(int n) { if ((g_work += n) > 200000000) { SH->budgetHit = 1; _exit(97); } }      // the solver's time limit
void satBegin(const SatCfg &c) { SATC = c; g_solves = g_work = 0; }
struct Solver {
	Rng r{1};
	struct Cl { vector<int> l; bool learnt; };
	vector<Cl> cls; vector<vector<int>> watch; vector<signed char> val, phase; vector<int> level, reason, trail, lim; vector<double> act; vector<int> seen;
	size_t qh = 0; vector<int> cur, assum; bool unsat = false; int nv = 0; double inc = 1; int state = 0; vector<signed char> model;
	vector<int> heap, hpos; vector<char> failedMark;
	static int ix(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
	void ensure(int v) { if (v > 300000) { SH->budgetHit = 1; _exit(97); } while (nv < v) { nv++; val.resize(nv + 1, 0); phase.resize(nv + 1, 0); level.resize(nv + 1, 0); reason.resize(nv + 1, -1); act.resize(nv + 1, 0); seen.resize(nv + 1, 0); watch.resize(2 * nv + 2); hpos.resize(nv + 1, -1);
		act[nv] = SATC.orderMode ? r.below(1000000) * 1e-9 : 0; switch (SATC.phaseMode) { case 0: phase[nv] = -1; break; case 1: phase[nv] = 1; break; case 2: phase[nv] = r.chance(1, 2) ? 1 : -1; break; default: phase[nv] = r.chance(SATC.phaseMode, 20) ? 1 : -1; }
		hinsert(nv); } }
	bool hless(int a, int b) { return act[a] != act[b] ? act[a] > act[b] : a < b; }
	void hup(int i) { int v = heap[i]; while (i) { int p = (i - 1) / 2; if (!hless(v, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = v; hpos[v] = i; }
	void hdown(int i) { int v = heap[i]; for (;;) { int c = 2 * i + 1; if (c >= (int)heap.size()) break; if (c + 1 < (int)heap.size() && hless(heap[c + 1], heap[c])) c++; if (!hless(heap[c], v)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = v; hpos[v] = i; }
	void hinsert(int v) { if (hpos[v] >= 0) return; hpos[v] = heap.size(); heap.push_back(v); hup(hpos[v]); }
	int hpop() { int v = heap[0]; int b = heap.back(); heap.pop_back(); hpos[v] = -1; if (!heap.empty() && b != v) { heap[0] = b; hpos[b] = 0; hdown(0); } return v; }
	int value(int l) { int v = val[abs(l)]; return l > 0 ? v : -v; }
	void enq(int l, int why) { val[abs(l)] = l > 0 ? 1 : -1; level[abs(l)] = lim.size(); reason[abs(l)] = why; trail.push_back(l); }
	void cancel(int lv) { if ((int)lim.size() <= lv) return; for (int i = trail.size() - 1; i >= lim[lv]; i--) { int v = abs(trail[i]); if (SATC.savePhase) phase[v] = val[v]; val[v] = 0; reason[v] = -1; hinsert(v); } trail.resize(lim[lv]); lim.resize(lv); qh = trail.size(); }
	void addClause(vector<int> c) {
		cancel(0); state = 0; work(50);
		sort(c.begin(), c.end(), [](int a, int b) { return abs(a) != abs(b) ? abs(a) < abs(b) : a < b; }); c.erase(unique(c.begin(), c.end()), c.end());
		vector<int> d; for (size_t i = 0; i < c.size(); i++) { ensure(abs(c[i])); if (i + 1 < c.size() && c[i] == -c[i + 1]) return; if (value(c[i]) == 1 && level[abs(c[i])] == 0) return; if (value(c[i]) == -1 && level[abs(c[i])] == 0) continue; d.push_back(c[i]); }
		if (d.empty()) { unsat = true; return; }
		if (d.size() == 1) { enq(d[0], -1); if (prop() >= 0) unsat = true; return; }
		attach(d, false);
	}
	int attach(const vector<int> &d, bool le) { int id = cls.size(); work(50); cls.push_back({d, le}); watch[ix(-d[0])].push_back(id); watch[ix(-d[1])].push_back(id); return id; }
	int prop() {
		while (qh < trail.size()) {
			int p = trail[qh++]; vector<int> &w = watch[ix(p)]; size_t i = 0, j = 0; // clauses watching -p
			for (; i < w.size(); i++) {
				int id = w[i]; work(1); vector<int> &l = cls[id].l; if (l[0] == -p) swap(l[0], l[1]);
				if (value(l[0]) == 1) { w[j++] = id; continue; }
				bool f = false; for (size_t k = 2; k < l.size(); k++) if (value(l[k]) != -1) { swap(l[1], l[k]); watch[ix(-l[1])].push_back(id); f = true; break; }
				if (f) continue; w[j++] = id;
				if (value(l[0]) == -1) { for (i++; i < w.size(); i++) w[j++] = w[i]; w.resize(j); return id; }
				enq(l[0], id);
			}
			w.resize(j);
		}
		return -1;
	}
	void bump(int v) { act[v] += inc; if (act[v] > 1e100) { for (int i = 1; i <= nv; i++) act[i] *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) hup(hpos[v]); }
	int solve() {
		g_solves++; SH->solves++; long k = g_solves - 1; if (k >= SATC.maxSolves) { SH->budgetHit = 1; _exit(97); }
		vector<int> as; as.swap(assum); state = 0;
		if (SATC.intAt >= 0 && k >= SATC.intAt && k < SATC.intAt + SATC.intLen) { fire(FK_SOLVER_INT, k); return 0; }
		if (unsat) { state = 20; return 20; }
		cancel(0); if (prop() >= 0) { unsat = true; state = 20; return 20; }
		long confl = 0, rest = 100; fire(FK_SOLVER_MODEL, SATC.phaseMode);
		for (;;) {
			int c = prop();
			if (c >= 0) {
				if (lim.empty()) { unsat = true; state = 20; return 20; }
				confl++; vector<int> out{0}; int cnt = 0, p = 0, i = trail.size() - 1;
				do { auto &l = cls[c].l; for (int q : l) { if (q == p) continue; int v = abs(q); if (!seen[v] && level[v] > 0) { seen[v] = 1; bump(v); if (level[v] == (int)lim.size()) cnt++; else out.push_back(q); } }
					while (!seen[abs(trail[i])]) i--; p = trail[i]; c = reason[abs(p)]; seen[abs(p)] = 0; cnt--; i--; } while (cnt > 0);
				out[0] = -p; for (int q : out) seen[abs(q)] = 0;
				int bt = 0; if (out.size() > 1) { int m = 1; for (size_t x = 2; x < out.size(); x++) if (level[abs(out[x])] > level[abs(out[m])]) m = x; swap(out[1], out[m]); bt = level[abs(out[1])]; }
				cancel(bt); if (out.size() == 1) enq(out[0], -1); else { int id = attach(out, true); enq(out[0], id); }
				inc *= 1.05; if (confl > rest) { rest += rest / 2 + 50; cancel(0); if (SATC.phaseMode == 2 && r.chance(1, 4)) for (int v = 1; v <= nv; v++) phase[v] = r.chance(1, 2) ? 1 : -1; }
				continue;
			}
			int d = 0;
			while (lim.size() < as.size()) { int a = as[lim.size()]; ensure(abs(a)); if (value(a) == 1) lim.push_back(trail.size()); else if (value(a) == -1) { failed = as; cancel(0); state = 20; return 20; } else { d = a; break; } }
			if (!d) { while (!heap.empty()) { int v = hpop(); if (!val[v]) { d = phase[v] > 0 ? v : -v; break; } } }
			if (!d) { model = val; cancel(0); state = 10; return 10; }
			lim.push_back(trail.size()); enq(d, -1);
		}
	}
	vector<int> failed;
};
}
using namespace vsim;
namespace { struct Out { Out() { rtPause(); } ~Out() { rtResume(); } }; }   // the solver is a peer: its own heap, no faults, no clock
extern "C" {
const char *ipasir_signature() { return "simulated-cdcl"; }
void *ipasir_init() { Out o; Solver *s = new Solver(); s->r = Rng(SATC.seed ^ (uint64_t)(g_solves + 1)); event(0x5A71); return s; }
void ipasir_release(void *s) { Out o; delete (Solver *)s; }
void ipasir_add(void *v, int l) { Out o; Solver *s = (Solver *)v; if (l) s->cur.push_back(l); else { s->addClause(s->cur); s->cur.clear(); } }
void ipasir_assume(void *v, int l) { Out o; ((Solver *)v)->assum.push_back(l); ((Solver *)v)->state = 0; }
int ipasir_solve(void *v) { Out o; int r = ((Solver *)v)->solve(); event(0x5A72, r, ((Solver *)v)->nv); return r; }
int ipasir_val(void *v, int l) { Solver *s = (Solver *)v; if (s->state != 10) { snprintf(SH->note, sizeof SH->note, "ipasir_val called outside the SAT state"); return 0; } int x = abs(l); if (x > s->nv || x >= (int)s->model.size()) return -x; int m = s->model[x] ? s->model[x] : -1; return m > 0 ? x : -x; }
int ipasir_failed(void *v, int l) { Solver *s = (Solver *)v; return find(s->failed.begin(), s->failed.end(), l) != s->failed.end(); }
void ipasir_set_terminate(void *, void *, int (*)(void *)) {}
void ipasir_set_learn(void *, void *, int, void (*)(void *, int *)) {}
}
