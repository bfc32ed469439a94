// Compiled with the planner's own headers and flags; wraps calls between its translation units.
#include "Model.h"
#include "VisitedList.h"
#include "search/fringes/OneQueueWAStarFringe.h"
#include "monitor.hpp"
#include "simrt.hpp"
#include <algorithm>
#include <bitset>
#include <cstdio>
#include <cstring>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
namespace vsim {
bool monPresent = true;
typedef bitset<192> BS;
struct Net { vector<int> lab; vector<pair<int,int>> key; vector<BS> after; bool ok = true; };
struct Snap { vector<bool> state; Net net; int cost = 0, depth = 0, mixed = 0; };
static bool on, dead; static const progression::Model *mapped; static vector<int> taskMap, methMap; static long solves, seenNodes;
struct Rec { Snap s; vector<uint64_t> inv; int f = 0; };
static unordered_map<string, vector<Rec>> accepted;
static progression::searchNode *pending; static Snap pendSnap; static bool pendOn;
static void fail(const char *kind, const string &d) { snprintf(SH->note, sizeof SH->note, "MON %s %.400s", kind, d.c_str()); fflush(stdout); syscall(SYS_exit_group, 95); }
void monBegin() { on = monMask != 0 && monInst; dead = false; mapped = nullptr; solves = seenNodes = 0; accepted.clear(); pending = nullptr; pendOn = false; }
struct Quiet { Quiet() { rtPause(); } ~Quiet() { rtResume(); } };
static bool mapModel(const progression::Model *m) {
	if (mapped == m) return true; if (dead) return false;
	const Inst &I = *monInst; dead = true;
	if (m->numStateBits != (int)I.facts.size() || m->numTasks != (int)I.tasks.size() || m->numMethods != (int)I.methods.size()) return false;
	map<string,int> t, me; for (size_t i = 0; i < I.tasks.size(); i++) t[I.tasks[i]] = i; for (size_t i = 0; i < I.methods.size(); i++) me[I.methods[i].name] = i;
	if (t.size() != I.tasks.size() || me.size() != I.methods.size()) return false;
	taskMap.clear(); methMap.clear();
	for (int i = 0; i < m->numTasks; i++) { auto x = t.find(m->taskNames[i]); if (x == t.end()) return false; taskMap.push_back(x->second); }
	for (int i = 0; i < m->numMethods; i++) { auto x = me.find(m->methodNames[i]); if (x == me.end()) return false; const Method &M = I.methods[x->second]; if (m->numSubTasks[i] != (int)M.sub.size()) return false; for (size_t j = 0; j < M.sub.size(); j++) if (taskMap[m->subTasks[i][j]] != M.sub[j]) return false; methMap.push_back(x->second); }
	dead = false; mapped = m; return true;
}
static Snap snap(progression::searchNode *n) {
	Snap S; S.state = n->state; S.cost = n->actionCosts; S.depth = n->modificationDepth; S.mixed = n->mixedModificationDepth;
	unordered_map<progression::planStep *, int> ix; vector<progression::planStep *> st;
	auto add = [&](progression::planStep *p) { if (ix.count(p)) return; ix[p] = st.size(); st.push_back(p); };
	for (int i = 0; i < n->numPrimitive; i++) add(n->unconstraintPrimitive[i]); for (int i = 0; i < n->numAbstract; i++) add(n->unconstraintAbstract[i]);
	size_t first = st.size();
	for (size_t i = 0; i < st.size(); i++) { for (int j = 0; j < st[i]->numSuccessors; j++) add(st[i]->successorList[j]); if (st.size() > 190) { S.net.ok = false; return S; } }
	int k = st.size(); S.net.after.assign(k, BS());
	for (auto p : st) { if (p->task < 0 || p->task >= (int)taskMap.size()) { fail("bad-network", "task number out of range"); } S.net.lab.push_back(taskMap[p->task]); S.net.key.push_back({p->parentSolutionStepInstanceNumber, p->myPositionInParent}); }
	for (int i = 0; i < k; i++) for (int j = 0; j < st[i]->numSuccessors; j++) S.net.after[i][ix[st[i]->successorList[j]]] = 1;
	for (int x = 0; x < k; x++) for (int i = 0; i < k; i++) if (S.net.after[i][x]) S.net.after[i] |= S.net.after[x];
	if (monMask & MON_STEP) {
		if (first != (size_t)(n->numPrimitive + n->numAbstract)) fail("bad-network", "an unconstrained task is listed twice");
		for (int i = 0; i < k; i++) if (S.net.after[i][i]) fail("bad-network", "the ordering is cyclic");
		for (size_t u = 0; u < first; u++) for (int i = 0; i < k; i++) if (S.net.after[i][u]) fail("bad-network", "an unconstrained task has a predecessor");
		for (int i = 0; i < n->numPrimitive; i++) if (monInst->isAbs(S.net.lab[i])) fail("bad-network", "abstract task in the list of primitive ones");
		for (size_t i = n->numPrimitive; i < first; i++) if (!monInst->isAbs(S.net.lab[i])) fail("bad-network", "primitive task in the list of abstract ones");
		if (n->containedTasks) { map<int,int> c, d; for (auto p : st) c[p->task]++; for (int i = 0; i < n->numContainedTasks; i++) d[n->containedTasks[i]] += n->containedTaskCount[i]; if (c != d) fail("bad-count", "the list of contained tasks does not match the network"); }
	}
	return S;
}
static string show(const Snap &S) { string o = "state"; for (size_t i = 0; i < S.state.size(); i++) if (S.state[i]) o += " " + to_string(i); o += " cost " + to_string(S.cost) + " tasks"; for (size_t i = 0; i < S.net.lab.size(); i++) { o += " " + to_string(i) + ":" + monInst->tasks[S.net.lab[i]] + "<"; for (size_t j = 0; j < S.net.lab.size(); j++) if (S.net.after[i][j]) o += to_string(j) + ","; } return o; }
static RefResult solve(const Snap &S, int metric) {
	RefResult r; if (S.net.lab.empty()) { bool g = true; for (int f : monInst->goal) if (!S.state[f]) g = false; r.v = g ? SOLVABLE : UNSOLVABLE; r.optCost = 0; r.optKnown = g; return r; }
	vector<pair<int,int>> o; for (size_t i = 0; i < S.net.lab.size(); i++) for (size_t j = 0; j < S.net.lab.size(); j++) if (S.net.after[i][j]) o.push_back({(int)i, (int)j});
	Inst J = subInstance(*monInst, S.state, S.net.lab, o); J = withMetric(J, metric, J.init); SH->probes[5]++; return refSolve(J, monCap);
}
static bool sampled() { seenNodes++; if (solves >= 60) return false; if (seenNodes > 25 && seenNodes % 7) return false; solves++; return true; }
static void resolvePending() {      // a node that was neither queued nor recognised nor a goal was given up by a heuristic
	if (!pending) return; pending = nullptr; if (!pendOn || !(monMask & MON_HEUR) || !pendSnap.net.ok || solves >= 90) return;
	solves++; SH->probes[6]++; if (solve(pendSnap, 1).v == SOLVABLE) fail("unsafe", "a heuristic gives up a node that can reach a solution: " + show(pendSnap));
}
static void checkStep(const progression::Model *m, progression::searchNode *n, const Snap &pre, progression::searchNode *r, pair<int,int> chosen) {
	Snap post = snap(r); if (!post.net.ok) return; const Inst &I = *monInst; SH->probes[4]++;
	vector<progression::solutionStep *> chain; for (auto s = r->solution; s != n->solution; s = s->prev) { if (!s || chain.size() > 5000) fail("bad-trace", "the new solution does not continue the old one"); chain.push_back(s); }
	reverse(chain.begin(), chain.end()); if (chain.empty()) fail("bad-trace", "no step was recorded");
	vector<bool> st = pre.state; map<pair<int,int>, int> lab; map<pair<int,int>, set<pair<int,int>>> aft; int cost = pre.cost, depth = pre.depth, mixed = pre.mixed;
	for (size_t i = 0; i < pre.net.lab.size(); i++) { lab[pre.net.key[i]] = pre.net.lab[i]; auto &a = aft[pre.net.key[i]]; for (size_t j = 0; j < pre.net.lab.size(); j++) if (pre.net.after[i][j]) a.insert(pre.net.key[j]); }
	if (lab.size() != pre.net.lab.size()) { fail("bad-trace", "two tasks of a network claim the same origin"); }
	for (size_t c = 0; c < chain.size(); c++) {
		auto s = chain[c]; pair<int,int> k{s->parentSolutionStepInstanceNumber, s->myPositionInParent}; if (c == 0 && k != chosen) fail("bad-trace", "the recorded step is not the chosen one");
		if (!lab.count(k)) fail("bad-step", "a task that is not in the network is progressed");
		if (s->task < 0 || s->task >= (int)taskMap.size() || taskMap[s->task] != lab[k]) fail("bad-trace", "the recorded step has another task");
		for (auto &a : aft) if (a.second.count(k)) fail("bad-step", "a task is progressed before one that is ordered before it");
		int t = lab[k]; auto succ = aft[k]; lab.erase(k); aft.erase(k); depth++;
		if (s->method < 0) {
			if (I.isAbs(t)) fail("bad-step", "an abstract task is executed"); const Action &a = I.actions[t]; for (int f : a.pre) if (!st[f]) fail("bad-step", "an action is executed whose precondition does not hold: " + I.tasks[t]);
			for (int f : a.del) st[f] = false; for (int f : a.add) st[f] = true; cost += a.cost; mixed += a.cost;
		} else {
			const Method &M = I.methods[methMap[s->method]]; if (M.task != t) fail("bad-step", "a task is decomposed by a method of another task"); mixed++; int q = M.sub.size(); int me = s->mySolutionStepInstanceNumber;
			vector<BS> cl(q); for (auto &o : M.ord) cl[o.first][o.second] = 1; for (int x = 0; x < q; x++) for (int i = 0; i < q; i++) if (cl[i][x]) cl[i] |= cl[x];
			for (int i = 0; i < q; i++) { pair<int,int> ck{me, i}; if (lab.count(ck)) fail("bad-trace", "an origin is used twice"); lab[ck] = M.sub[i]; auto &a = aft[ck]; a = succ; for (int j = 0; j < q; j++) if (cl[i][j]) a.insert({me, j}); }
		}
	}
	if (st != post.state) fail("bad-step", "the state after " + to_string(chain.size()) + " step(s), the first " + I.tasks[taskMap[chain[0]->task]] + ", is not the one the semantics gives");
	if (lab.size() != post.net.lab.size()) fail("bad-step", "the network after a step has " + to_string(post.net.lab.size()) + " tasks instead of " + to_string(lab.size()));
	for (size_t i = 0; i < post.net.lab.size(); i++) { auto x = lab.find(post.net.key[i]); if (x == lab.end() || x->second != post.net.lab[i]) fail("bad-step", "the network after a step holds a task it should not hold"); }
	for (size_t i = 0; i < post.net.lab.size(); i++) { set<pair<int,int>> a; for (size_t j = 0; j < post.net.lab.size(); j++) if (post.net.after[i][j]) a.insert(post.net.key[j]); if (a != aft[post.net.key[i]]) fail("bad-step", "the ordering after a step (" + string(chain[0]->method < 0 ? "action " : "method ") + (chain[0]->method < 0 ? I.tasks[taskMap[chain[0]->task]] : I.methods[methMap[chain[0]->method]].name) + ") is not the one the semantics gives: " + show(pre) + " became " + show(post)); }
	if (cost != post.cost) fail("bad-cost", "action costs " + to_string(post.cost) + " instead of " + to_string(cost));
	if (depth != post.depth) fail("bad-cost", "depth " + to_string(post.depth) + " instead of " + to_string(depth));
	if (mixed != post.mixed) fail("bad-cost", "mixed depth " + to_string(post.mixed) + " instead of " + to_string(mixed));
	if (!r->goalReachable && solves < 60) { solves++; SH->probes[7]++; if (solve(post, 1).v == SOLVABLE) fail("bad-dead-end", "progression gives up a node that can reach a solution: " + show(post)); }
}
// ---------------------------------------------------------------- isomorphic networks
static uint64_t mix(uint64_t h) { h ^= h >> 31; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; return h ^ (h >> 32); }
// search nodes created, and those created although the clock shows that the time limit has passed (counted from the latest time shown
// before the search: when the clock is set back, the planner can only see the limit once the clock has caught up)
static int64_t firstNode;
static void countNode() { if (SH->probes[12]++ == 0) firstNode = max(clockNow(), SH->simStartUs + SH->simSpanUs); else if (CFG.limitUs >= 0 && clockNow() - firstNode > CFG.limitUs) SH->probes[11]++; }
static vector<uint64_t> invariants(const Net &N) {
	int k = N.lab.size(); vector<uint64_t> v(k); for (int i = 0; i < k; i++) v[i] = mix(N.lab[i] + 17);
	for (int r = 0; r < 3; r++) { vector<uint64_t> w(k); for (int i = 0; i < k; i++) { uint64_t a = 0, b = 0; for (int j = 0; j < k; j++) { if (N.after[i][j]) a += mix(v[j] ^ 0x55); if (N.after[j][i]) b += mix(v[j] ^ 0xAA); } w[i] = mix(v[i] + 3 * mix(a) + 5 * mix(b + 1)); } v = w; }
	return v;
}
static bool iso(const Net &A, const vector<uint64_t> &va, const Net &B, const vector<uint64_t> &vb) {
	int k = A.lab.size(); if (k != (int)B.lab.size()) return false; auto x = va, y = vb; sort(x.begin(), x.end()); sort(y.begin(), y.end()); if (x != y) return false;
	vector<int> m(k, -1); vector<char> u(k, 0); long steps = 0;
	function<bool(int)> go = [&](int i) -> bool {
		if (i == k) return true; if (++steps > 200000) return true;
		for (int j = 0; j < k; j++) { if (u[j] || va[i] != vb[j]) continue; bool ok = true; for (int p = 0; p < i && ok; p++) if (A.after[p][i] != B.after[m[p]][j] || A.after[i][p] != B.after[j][m[p]]) ok = false; if (!ok) continue; m[i] = j; u[j] = 1; if (go(i + 1)) return true; u[j] = 0; m[i] = -1; }
		return false; };
	return go(0);
}
static void checkVisit(progression::searchNode *n, bool isNew, const Snap &S, int f) {
	SH->probes[isNew ? 8 : 9]++; if (!S.net.ok) { return; }
	Rec R; R.s = S; R.inv = invariants(S.net); auto so = R.inv; sort(so.begin(), so.end()); string key; for (bool b : S.state) key += b ? '1' : '0'; for (auto x : so) key.append((const char *)&x, 8);
	auto &L = accepted[key]; R.f = f; bool any = false, cheap = false, lowf = false; for (auto &q : L) if (iso(S.net, R.inv, q.s.net, q.inv)) { any = true; if (q.s.cost <= S.cost) cheap = true; if (q.f <= f && q.f >= 0) lowf = true; }
	if (!isNew && !any) fail("lost-node", "a node is discarded as a duplicate, but no node with this state and network was seen: " + show(S));
	if (!isNew && monGCost == 1 && !cheap) fail("lost-cheaper", "a node is discarded as a duplicate of a more expensive one: " + show(S));
	if (isNew && lowf && f >= 0 && monGCost == 3) fail("missed-duplicate", "a node that was seen before with no higher value is not recognised: " + show(S));
	if (isNew && any && monGCost == 2) fail("missed-duplicate", "a node that was seen before is not recognised: " + show(S));
	if (isNew) L.push_back(move(R));
}
}
using namespace vsim; using progression::searchNode; typedef progression::Model PModel;
extern "C" {
searchNode *__real__ZN11progression5Model5applyEPNS_10searchNodeEi(PModel *, searchNode *, int) __attribute__((weak));
searchNode *__real__ZN11progression5Model9decomposeEPNS_10searchNodeEii(PModel *, searchNode *, int, int) __attribute__((weak));
bool __real__ZN11VisitedList10insertVisiEPN11progression10searchNodeE(VisitedList *, searchNode *) __attribute__((weak));
void __real__ZN20OneQueueWAStarFringe4pushEPN11progression10searchNodeE(OneQueueWAStarFringe *, searchNode *) __attribute__((weak));
bool __real__ZNK11progression5Model6isGoalEPNS_10searchNodeE(const PModel *, searchNode *) __attribute__((weak));
bool __real__ZNK11progression5Model12isApplicableEPNS_10searchNodeEi(const PModel *, searchNode *, int) __attribute__((weak));
searchNode *__wrap__ZN11progression5Model5applyEPNS_10searchNodeEi(PModel *m, searchNode *n, int i) {
	countNode();
	if (!on || dead) return __real__ZN11progression5Model5applyEPNS_10searchNodeEi(m, n, i);
	Snap *pre = nullptr; pair<int,int> ch; { Quiet q; if (mapModel(m)) { resolvePending(); pre = new Snap(snap(n)); ch = {n->unconstraintPrimitive[i]->parentSolutionStepInstanceNumber, n->unconstraintPrimitive[i]->myPositionInParent}; } }
	searchNode *r = __real__ZN11progression5Model5applyEPNS_10searchNodeEi(m, n, i);
	if (pre) { Quiet q; if ((monMask & MON_STEP) && pre->net.ok) { checkStep(m, n, *pre, r, ch); Snap again = snap(n); if (again.state != pre->state || again.net.key != pre->net.key || again.net.after != pre->net.after || again.cost != pre->cost) fail("parent-changed", "executing an action changed the node it was executed in"); }
		if (monMask & MON_HEUR) { pending = r; pendSnap = snap(r); pendOn = r->goalReachable; } delete pre; }
	return r;
}
searchNode *__wrap__ZN11progression5Model9decomposeEPNS_10searchNodeEii(PModel *m, searchNode *n, int i, int me) {
	countNode();
	if (!on || dead) return __real__ZN11progression5Model9decomposeEPNS_10searchNodeEii(m, n, i, me);
	Snap *pre = nullptr; pair<int,int> ch; { Quiet q; if (mapModel(m)) { resolvePending(); pre = new Snap(snap(n)); ch = {n->unconstraintAbstract[i]->parentSolutionStepInstanceNumber, n->unconstraintAbstract[i]->myPositionInParent}; } }
	searchNode *r = __real__ZN11progression5Model9decomposeEPNS_10searchNodeEii(m, n, i, me);
	if (pre) { Quiet q; if ((monMask & MON_STEP) && pre->net.ok) { checkStep(m, n, *pre, r, ch); Snap again = snap(n); if (again.state != pre->state || again.net.key != pre->net.key || again.net.after != pre->net.after || again.cost != pre->cost) fail("parent-changed", "decomposing a task changed the node it was decomposed in"); }
		if (monMask & MON_HEUR) { pending = r; pendSnap = snap(r); pendOn = r->goalReachable; } delete pre; }
	return r;
}
bool __wrap__ZN11VisitedList10insertVisiEPN11progression10searchNodeE(VisitedList *v, searchNode *n) {
	if (!on || dead || !mapped) return __real__ZN11VisitedList10insertVisiEPN11progression10searchNodeE(v, n);
	Snap *S = nullptr; { Quiet q; if (pending && n != pending) resolvePending(); if (monMask & MON_DUP) S = new Snap(snap(n)); }
	int f = n->fValue; bool r = __real__ZN11VisitedList10insertVisiEPN11progression10searchNodeE(v, n);
	{ Quiet q; if (!r && n == pending) pending = nullptr; if (S) { checkVisit(n, r, *S, f); delete S; } }
	return r;
}
void __wrap__ZN20OneQueueWAStarFringe4pushEPN11progression10searchNodeE(OneQueueWAStarFringe *f, searchNode *n) {
	if (on && !dead && mapped && (monMask & MON_HEUR)) { Quiet q; bool was = n == pending; pending = was ? nullptr : pending;
		if (was && monAdm && sampled() && pendSnap.net.ok) { RefResult r = solve(pendSnap, monAdm); SH->probes[10]++; int h = n->heuristicValue[0];
			if (r.optKnown && r.v == SOLVABLE && h > r.optCost) fail("inadmissible", "estimate " + to_string(h) + ", but the cheapest completion costs " + to_string(r.optCost) + ": " + show(pendSnap)); } }
	__real__ZN20OneQueueWAStarFringe4pushEPN11progression10searchNodeE(f, n);
}
bool __wrap__ZNK11progression5Model6isGoalEPNS_10searchNodeE(const PModel *m, searchNode *n) {
	bool r = __real__ZNK11progression5Model6isGoalEPNS_10searchNodeE(m, n);
	if (on && !dead && mapped) { Quiet q; if (r && n == pending) pending = nullptr; if (monMask & MON_STEP) { bool g = n->numAbstract == 0 && n->numPrimitive == 0; for (int f : monInst->goal) if (!n->state[f]) g = false; if (g != r) fail("bad-goal", r ? "a node is taken for a goal that is none" : "a goal node is not recognised"); } }
	return r;
}
bool __wrap__ZNK11progression5Model12isApplicableEPNS_10searchNodeEi(const PModel *m, searchNode *n, int a) {
	bool r = __real__ZNK11progression5Model12isApplicableEPNS_10searchNodeEi(m, n, a);
	if (on && !dead && mapped && (monMask & MON_STEP)) { Quiet q; bool g = true; for (int f : monInst->actions[taskMap[a]].pre) if (!n->state[f]) g = false; if (g != r) fail("bad-applicable", r ? "an action counts as applicable whose precondition does not hold" : "an applicable action is taken for inapplicable"); }
	return r;
}
}
