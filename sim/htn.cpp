#include "htn.hpp"
#include <algorithm>
#include <cstring>
#include <functional>
#include <queue>
#include <sstream>
#include <unordered_map>
#include <climits>
using namespace std;
namespace vsim {

static void ilist(string &o, const vector<int> &v) { for (int x : v) { o += to_string(x); o += ' '; } o += "-1\n"; }
static void clist(string &o, const vector<int> &v, const vector<CondEff> &c) { for (int x : v) { o += "0 "; o += to_string(x); o += "  "; } for (auto &e : c) { o += to_string(e.cond.size()) + " "; for (int f : e.cond) o += to_string(f) + " "; o += to_string(e.fact) + "  "; } o += "-1\n"; }
// the state after an action: what is deleted and added at the same time is added
template<class S> static void applyTo(const Action &a, S &s) {
	vector<int> d = a.del, p = a.add; auto on = [&](const CondEff &e) { for (int f : e.cond) if (!s[f]) return false; return true; };
	for (auto &e : a.cdel) if (on(e)) d.push_back(e.fact); for (auto &e : a.cadd) if (on(e)) p.push_back(e.fact);
	for (int f : d) s[f] = false; for (int f : p) s[f] = true;
}
bool conditional(const Inst &I) { for (auto &a : I.actions) if (!a.cadd.empty() || !a.cdel.empty()) return true; return false; }

string toSas(const Inst &I) {
	string o = ";; #state features\n";
	o += to_string(I.facts.size()) + "\n";
	for (auto &f : I.facts) o += f + "\n";
	o += "\n;; Mutex Groups\n" + to_string(I.vars.size()) + "\n";
	for (size_t i = 0; i < I.vars.size(); i++) o += to_string(I.vars[i].first) + " " + to_string(I.vars[i].last) + " var" + to_string(i) + "\n";
	o += "\n;; further strict Mutex Groups\n" + to_string(I.strictMutex.size()) + "\n";
	for (auto &m : I.strictMutex) ilist(o, m);
	o += "\n;; further non strict Mutex Groups\n" + to_string(I.mutex.size()) + "\n";
	for (auto &m : I.mutex) ilist(o, m);
	o += "\n;; known invariants\n" + to_string(I.invariants.size()) + "\n";
	for (auto &m : I.invariants) { vector<int> v; for (int l : m) v.push_back(l < 0 ? l - 1 : l); ilist(o, v); }   // literal -f-1 is written -f-2
	o += "\n;; Actions\n" + to_string(I.actions.size()) + "\n";
	for (auto &a : I.actions) { o += to_string(a.cost) + "\n"; ilist(o, a.pre); clist(o, a.add, a.cadd); clist(o, a.del, a.cdel); }
	o += "\n;; initial state\n"; ilist(o, I.s0);
	o += "\n;; goal\n"; ilist(o, I.goal);
	o += "\n;; tasks (primitive and abstract)\n" + to_string(I.tasks.size()) + "\n";
	for (size_t i = 0; i < I.tasks.size(); i++) o += string(I.isAbs(i) ? "1 " : "0 ") + I.tasks[i] + "\n";
	o += "\n;; initial abstract task\n" + to_string(I.init) + "\n";
	o += "\n;; methods\n" + to_string(I.methods.size()) + "\n";
	for (auto &m : I.methods) {
		o += m.name + "\n" + to_string(m.task) + "\n"; ilist(o, m.sub);
		for (auto &p : m.ord) o += to_string(p.first) + " " + to_string(p.second) + " ";
		o += "-1\n";
	}
	return o;
}

// Strict reader of exactly the text format above: false for anything malformed or truncated.
namespace {
struct Rd {
	vector<string> L; size_t p = 0; bool ok = true;
	string line() { if (p >= L.size()) { ok = false; return ""; } return L[p++]; }
	int num() { string s = line(); if (s.empty()) { ok = false; return 0; } char *e; long v = strtol(s.c_str(), &e, 10); if (*e || e == s.c_str() || v < 0 || v > 1000000) ok = false; return ok ? (int)v : 0; }
	void skip(int n) { for (int i = 0; i < n; i++) line(); }
	vector<int> list() { istringstream s(line()); vector<int> r; long v; while (s >> v) { if (v == -1) { string t; if (s >> t) ok = false; return r; } r.push_back((int)v); } ok = false; return r; }
	vector<int> cond(vector<CondEff> &ce) { vector<int> a = list(), r; for (size_t i = 0; i < a.size() && ok;) { int k = a[i++]; if (k < 0 || i + k + 1 > a.size()) { ok = false; break; } CondEff e; for (int j = 0; j < k; j++) e.cond.push_back(a[i++]); e.fact = a[i++]; if (k) ce.push_back(e); else r.push_back(e.fact); } return r; }
};
}
bool fromSas(const string &txt, Inst &I) {
	Rd R; { string cur; for (char c : txt) if (c == '\n') { R.L.push_back(cur); cur.clear(); } else cur += c; if (!cur.empty()) return false; }
	I = Inst();
	R.skip(1); int n = R.num(); for (int i = 0; i < n && R.ok; i++) I.facts.push_back(R.line());
	R.skip(2); int nv = R.num();
	for (int i = 0; i < nv && R.ok; i++) { istringstream s(R.line()); Var v; string nm; if (!(s >> v.first >> v.last >> nm)) R.ok = false; if (R.ok && (v.first < 0 || v.last >= n || v.first > v.last)) R.ok = false; I.vars.push_back(v); }
	for (int t = 0; t < 3 && R.ok; t++) { R.skip(2); int k = R.num(); for (int i = 0; i < k && R.ok; i++) { auto l = R.list(); if (t == 2) for (int &x : l) if (x < 0) x += 1; (t == 0 ? I.strictMutex : t == 1 ? I.mutex : I.invariants).push_back(l); } }
	R.skip(2); int na = R.num();
	auto inr = [&](const vector<int> &v, int lim) { for (int x : v) if (x < 0 || x >= lim) R.ok = false; };
	for (int i = 0; i < na && R.ok; i++) { Action a; a.cost = R.num(); a.pre = R.list(); a.add = R.cond(a.cadd); a.del = R.cond(a.cdel); for (auto *q : {&a.cadd, &a.cdel}) for (auto &e : *q) { inr(e.cond, n); inr({e.fact}, n); } inr(a.pre, n); inr(a.add, n); inr(a.del, n); I.actions.push_back(a); }
	R.skip(2); I.s0 = R.list(); R.skip(2); I.goal = R.list(); inr(I.s0, n); inr(I.goal, n);
	R.skip(2); int nt = R.num();
	for (int i = 0; i < nt && R.ok; i++) { string s = R.line(); if (s.size() < 3 || s[1] != ' ') { R.ok = false; break; } bool ab = s[0] == '1'; if (ab != (i >= na)) R.ok = false; I.tasks.push_back(s.substr(2)); }
	if (nt < na) R.ok = false;
	I.nAbs = nt - na;
	R.skip(2); I.init = R.num(); if (I.init >= nt) R.ok = false;
	R.skip(2); int nm = R.num();
	for (int i = 0; i < nm && R.ok; i++) { Method m; m.name = R.line(); m.task = R.num(); m.sub = R.list(); auto o = R.list(); inr(m.sub, nt); inr(o, m.sub.size()); if (o.size() % 2 || m.task >= nt) R.ok = false; for (size_t j = 0; j + 1 < o.size(); j += 2) m.ord.push_back({o[j], o[j + 1]}); I.methods.push_back(m); }
	return R.ok && R.p == R.L.size();
}

static bool methTO(const Method &m) {
	int k = m.sub.size(); vector<vector<char>> c(k, vector<char>(k, 0));
	for (auto &p : m.ord) c[p.first][p.second] = 1;
	for (int x = 0; x < k; x++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (c[i][x] && c[x][j]) c[i][j] = 1;
	for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) if (!c[i][j] && !c[j][i]) return false;
	return true;
}
bool totallyOrdered(const Inst &I) { for (auto &m : I.methods) if (!methTO(m)) return false; return true; }
bool cyclic(const Inst &I) {
	int n = I.tasks.size(); vector<int> col(n, 0); bool cyc = false;
	function<void(int)> dfs = [&](int t) { col[t] = 1; for (auto &m : I.methods) if (m.task == t) for (int s : m.sub) { if (col[s] == 1) cyc = true; else if (!col[s]) dfs(s); } col[t] = 2; };
	dfs(I.init); return cyc;
}

void closeUnreachable(Inst &I) {
	int n = I.tasks.size(); vector<char> r(n, 0);
	function<void(int)> dfs = [&](int t) { if (r[t]) return; r[t] = 1; for (auto &m : I.methods) if (m.task == t) for (int s : m.sub) dfs(s); };
	dfs(I.init);
	vector<int> mp(n, -1); Inst J = I; J.actions.clear(); J.tasks.clear(); J.methods.clear(); J.nAbs = 0;
	for (int i = 0; i < n; i++) if (r[i]) { mp[i] = J.tasks.size(); J.tasks.push_back(I.tasks[i]); if (!I.isAbs(i)) J.actions.push_back(I.actions[i]); else J.nAbs++; }
	for (auto &m : I.methods) if (r[m.task]) { Method k = m; k.task = mp[m.task]; for (int &s : k.sub) s = mp[s]; J.methods.push_back(k); }
	J.init = mp[I.init]; I = J;
}

// What a correct file may look like besides being tidy: lists in any order, and things that are listed twice.
// Drawn from a stream of its own that depends on the instance only.
void untidy(Inst &I) {
	uint64_t h = 88172645463325252ULL; for (char c : toSas(I)) h = (h ^ (unsigned char)c) * 1099511628211ULL;
	Rng r(h); if (!r.chance(1, 3)) return;
	auto twice = [&](vector<int> &v) { if (!v.empty()) v.insert(v.begin() + r.below(v.size() + 1), r.pick(v)); };
	bool mix = r.chance(1, 2), p2 = r.chance(1, 4), o2 = r.chance(1, 4), e2 = r.chance(1, 4), ad = r.chance(1, 4);
	for (auto &a : I.actions) {
		if (p2 && r.chance(1, 2)) twice(a.pre);
		if (e2 && r.chance(1, 3)) twice(r.chance(1, 2) ? a.add : a.del);
		if (ad && r.chance(1, 2) && !a.add.empty()) a.del.push_back(r.pick(a.add));
		if (mix) { r.shuffle(a.pre); r.shuffle(a.add); r.shuffle(a.del); }
	}
	for (auto &m : I.methods) { if (o2 && !m.ord.empty() && r.chance(1, 2)) m.ord.push_back(r.pick(m.ord)); if (mix) r.shuffle(m.ord); }
	if (e2 && r.chance(1, 2)) twice(I.goal);
	if (mix) { r.shuffle(I.s0); r.shuffle(I.goal); }
}

void addConditional(Inst &I) {
	uint64_t h = 2862933555777941757ULL; for (char c : toSas(I)) h = (h ^ (unsigned char)c) * 1099511628211ULL;
	Rng r(h); if (!r.chance(1, 25)) return;
	vector<int> flip; for (auto &v : I.vars) if (v.first == v.last) flip.push_back(v.first);
	if (flip.empty() || I.actions.empty()) return;
	for (int k = r.range(1, 3); k--;) { auto &a = I.actions[r.below(I.actions.size())]; CondEff e; e.fact = r.pick(flip); for (int c = r.range(1, 2); c--;) e.cond.push_back(r.below(I.facts.size())); (r.chance(1, 2) ? a.cadd : a.cdel).push_back(e); }
}

// Mutex groups and invariants as a grounder would have found them: true in every state that some sequence of actions reaches.
// They are drawn from a stream of their own that depends on the instance only.
void addKnownMutexes(Inst &I) {
	if (!I.strictMutex.empty() || !I.mutex.empty() || !I.invariants.empty()) return;
	uint64_t h = 1469598103934665603ULL; for (char c : toSas(I)) h = (h ^ (unsigned char)c) * 1099511628211ULL;
	Rng r(h); if (r.chance(1, 2) || I.facts.size() < 2 || I.facts.size() > 24) return;
	set<vector<bool>> rs; if (!reachableStates(I, rs, 300)) return;
	int n = I.facts.size(), want[3]; for (int &w : want) w = r.below(4);
	for (int t = 0; t < 40; t++) {
		int k = min(n, r.range(2, 4)); set<int> c; while ((int)c.size() < k) c.insert(r.below(n)); vector<int> g(c.begin(), c.end());
		int lo = k, hi = 0; for (auto &s : rs) { int x = 0; for (int f : g) x += s[f]; lo = min(lo, x); hi = max(hi, x); }
		if (hi <= 1) { if (r.chance(1, 3)) r.shuffle(g); if (lo == 1 && r.chance(3, 4) && want[0] > 0) { want[0]--; I.strictMutex.push_back(g); continue; } if (want[1] > 0) { want[1]--; I.mutex.push_back(g); continue; } }
		if (want[2] <= 0) continue;
		if (k == 4) { g.pop_back(); k = 3; } for (int &f : g) if (r.chance(1, 2)) f = -f - 1;
		bool ok = true; for (auto &s : rs) { bool any = false; for (int l : g) if (l < 0 ? !s[-l - 1] : s[l]) any = true; if (!any) { ok = false; break; } }
		if (ok) { want[2]--; I.invariants.push_back(g); }
	}
}

// ... and what is left of them when the minimiser has changed the instance
void dropFalseMutexes(Inst &I) {
	if (I.strictMutex.empty() && I.mutex.empty() && I.invariants.empty()) return;
	set<vector<bool>> rs; if (!reachableStates(I, rs, 3000)) { I.strictMutex.clear(); I.mutex.clear(); I.invariants.clear(); return; }
	auto count = [](const vector<bool> &s, const vector<int> &g) { int x = 0; for (int l : g) x += l < 0 ? !s[-l - 1] : s[l]; return x; };
	auto keep = [&](vector<vector<int>> &G, int lo, int hi) { vector<vector<int>> K; for (auto &g : G) { bool ok = true; for (auto &s : rs) { int x = count(s, g); if (x < lo || x > hi) { ok = false; break; } } if (ok) K.push_back(g); } G = K; };
	keep(I.strictMutex, 1, 1); keep(I.mutex, 0, 1); keep(I.invariants, 1, 1 << 20);
}

Inst genInst(Rng &r, const GenCfg &g) {
	for (int attempt = 0;; attempt++) {
		Inst I;
		int nv = r.range(1, g.maxVars);
		for (int v = 0; v < nv; v++) {
			int k = r.chance(1, 2) ? 1 : r.range(2, g.bigStates ? 5 : 4); if (k > 3 && r.chance(1, 3)) k = r.range(5, 9);
			int f = I.facts.size(); I.vars.push_back({f, f + k - 1});
			for (int i = 0; i < k; i++) I.facts.push_back("+f" + to_string(v) + "[v" + to_string(i) + "]");
		}
		if (g.bigStates) { int extra = r.range(20, 90); for (int e = 0; e < extra; e++) { int f = I.facts.size(); I.vars.push_back({f, f}); I.facts.push_back("+x" + to_string(e) + "[]"); } }
		int nvAll = I.vars.size();
		auto sz = [&](int v) { return I.vars[v].last - I.vars[v].first + 1; };
		for (int v = 0; v < nvAll; v++) if (sz(v) == 1) { if (r.chance(1, 2)) I.s0.push_back(I.vars[v].first); } else I.s0.push_back(I.vars[v].first + r.below(sz(v)));
		int na = r.range(1, g.few ? min(3, g.maxActions) : g.maxActions);
		int effectless = r.range(0, 3);
		for (int a = 0; a < na; a++) {
			Action A; A.cost = g.unitCost ? 1 : r.chance(1, 5) ? 0 : r.range(0, g.maxCost);
			if (g.noZeroCost && A.cost == 0) A.cost = 1;
			map<int,int> pre;
			int np = r.range(0, 2); for (int i = 0; i < np; i++) { int v = r.below(nvAll); pre[v] = I.vars[v].first + r.below(sz(v)); }
			int ne = (effectless == 0 || !r.chance(effectless, 10)) ? r.range(0, 2) + (r.chance(1, 2) ? 1 : 0) : 0;
			set<int> used;
			for (int i = 0; i < ne; i++) {
				int v = r.below(nvAll); if (!used.insert(v).second) continue;
				if (sz(v) == 1) { if (r.chance(3, 5)) A.add.push_back(I.vars[v].first); else A.del.push_back(I.vars[v].first); }
				else {
					int nvv = I.vars[v].first + r.below(sz(v));
					A.add.push_back(nvv);
					if (pre.count(v) && r.chance(1, 2)) { if (pre[v] != nvv) A.del.push_back(pre[v]); }
					else for (int f = I.vars[v].first; f <= I.vars[v].last; f++) if (f != nvv) A.del.push_back(f);
				}
			}
			for (auto &p : pre) A.pre.push_back(p.second);
			I.actions.push_back(A);
			I.tasks.push_back((A.add.empty() && A.del.empty() && r.chance(1, 2) ? "__method_precondition_a" : "a") + to_string(a) + "[]");
		}
		if (g.twins) for (int k = r.range(1, 3), n0 = na; k-- && na < n0 + 3;) {      // the same action at another price
			Action A = I.actions[r.below(n0)]; A.cost = r.range(0, max(1, g.maxCost)); I.actions.push_back(A); I.tasks.push_back("a" + to_string(na) + "[]"); na++; }
		for (int v = 0; v < nv; v++) if (r.chance(1, 3)) { int f = I.vars[v].first + r.below(sz(v)); I.goal.push_back(f); if (I.goal.size() >= 2) break; }
		// hierarchy
		int ord = g.order >= 0 ? g.order : (r.chance(2, 5) ? 0 : r.chance(2, 5) ? r.range(2, 4) : 1);
		int rec = g.recursion >= 0 ? g.recursion : (r.chance(3, 5) ? 0 : r.range(1, 2));
		int nAbs = r.range(1, g.few ? min(3, g.maxAbs) : g.maxAbs);
		// abstract index 0 is the root; task index na + i
		for (int i = 0; i < nAbs; i++) I.tasks.push_back(i == 0 ? "__top[]" : "t" + to_string(i) + "[]");
		I.nAbs = nAbs; I.init = na;
		int mc = 0;
		for (int i = 0; i < nAbs; i++) {
			int nm = i == 0 ? (r.chance(2, 3) ? 1 : r.range(1, g.maxMethods)) : r.range(1, g.maxMethods);
			if (i != 0 && r.chance(1, 12)) nm = 0;
			for (int m = 0; m < nm; m++) {
				Method M; M.name = (i == 0 ? "__top_method" : "m") + to_string(mc++) + "[]"; M.task = na + i;
				int k = r.range(1, g.maxArity); if (r.chance(1, 3)) k = min(k, 2);
				int recs = 0;
				for (int s = 0; s < k; s++) {
					int t;
					bool last = s == k - 1;
					if (i + 1 < nAbs && r.chance(2, 5)) t = na + r.range(i + 1, nAbs - 1);
					else if (rec == 2 && i > 0 && recs < 2 && r.chance(1, 3)) { t = na + r.range(1, i); recs++; }
					else if (rec == 1 && i > 0 && last && m > 0 && r.chance(1, 2)) { t = na + r.range(1, i); recs++; }
					else t = r.below(na);
					M.sub.push_back(t);
				}
				// orderings over a random permutation (so the listed subtask order need not match)
				vector<int> perm(k); for (int s = 0; s < k; s++) perm[s] = s;
				if (!(rec == 1 && recs) && r.chance(1, 3)) r.shuffle(perm);
				if (ord == 0 || (rec == 1 && recs)) { for (int s = 0; s + 1 < k; s++) M.ord.push_back({perm[s], perm[s + 1]}); }
				else if ((ord == 2 || ord == 4) && i) { for (int s = 0; s + 1 < k; s++) M.ord.push_back({perm[s], perm[s + 1]}); }
				else if (ord == 4) { bool in = r.chance(1, 2); for (int s = 1; s < k; s++) if (r.chance(4, 5)) { int q = r.below(s); if (in) M.ord.push_back({perm[s], perm[q]}); else M.ord.push_back({perm[q], perm[s]}); } }      // trees
				else if (ord >= 2) { int nch = r.range(1, ord == 2 ? 4 : 2); vector<int> lastc(nch, -1); for (int s = 0; s < k; s++) { int c = r.below(nch); if (lastc[c] >= 0) M.ord.push_back({lastc[c], perm[s]}); lastc[c] = perm[s]; } }
				else { int p = r.range(1, 8); for (int x = 0; x < k; x++) for (int y = x + 1; y < k; y++) if (r.chance(p, 10)) M.ord.push_back({perm[x], perm[y]}); }
				if (r.chance(1, 2)) { // transitively closed listing
					vector<vector<char>> c(k, vector<char>(k, 0)); for (auto &p : M.ord) c[p.first][p.second] = 1;
					for (int x = 0; x < k; x++) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (c[a][x] && c[x][b]) c[a][b] = 1;
					M.ord.clear(); for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (c[a][b]) M.ord.push_back({a, b});
				}
				I.methods.push_back(M);
				if (g.twins && r.chance(1, 2)) {      // the same method with one action at another price
					Method T = M; T.name = (i == 0 ? "__top_method" : "m") + to_string(mc++) + "[]"; int q = r.below(k), t = T.sub[q];
					if (t < na) { vector<int> same; for (int a = 0; a < na; a++) if (a != t && I.actions[a].pre == I.actions[t].pre && I.actions[a].add == I.actions[t].add && I.actions[a].del == I.actions[t].del) same.push_back(a);
						if (!same.empty()) { T.sub[q] = r.pick(same); I.methods.push_back(T); } }
				}
				// a twin: the same subtasks, but ordered differently
				if (k > 1 && r.chance(1, g.few ? 2 : 5) && !(rec == 1 && recs)) {
					Method T = M; T.name = (i == 0 ? "__top_method" : "m") + to_string(mc++) + "[]";
					if (ord == 1 && r.chance(2, 3)) {      // swap the ends of orderings (all numbers of predecessors and successors stay)
						int tries = r.range(1, 4); while (tries--) if (T.ord.size() > 1) { size_t a = r.below(T.ord.size()), b = r.below(T.ord.size()); if (a == b) continue;
							auto o = T.ord; swap(o[a].second, o[b].second); if (o[a].first == o[a].second || o[b].first == o[b].second) continue;
							vector<vector<char>> c(k, vector<char>(k, 0)); for (auto &p : o) c[p.first][p.second] = 1;
							for (int x = 0; x < k; x++) for (int y = 0; y < k; y++) for (int z = 0; z < k; z++) if (c[y][x] && c[x][z]) c[y][z] = 1;
							bool cyc = false; for (int x = 0; x < k; x++) if (c[x][x]) cyc = true; if (!cyc) T.ord = o; }
					} else { vector<int> p(k); for (int s = 0; s < k; s++) p[s] = s; r.shuffle(p); for (int s = 0; s < k; s++) T.sub[p[s]] = M.sub[s]; }
					I.methods.push_back(T);
				}
			}
		}
		closeUnreachable(I);
		if (I.actions.empty()) continue;
		// methods that mention an abstract task without methods are fine (never decomposable); the root needs one
		if (attempt > 50) return I;
		return I;
	}
}

// ---------------------------------------------------------------- reference solver
typedef unsigned long long u64;
struct Bits { vector<u64> w; };
bool reachableStates(const Inst &I, set<vector<bool>> &out, size_t cap) {
	vector<bool> s(I.facts.size(), false); for (int f : I.s0) s[f] = true;
	vector<vector<bool>> q{s}; out.insert(s);
	while (!q.empty()) {
		auto c = q.back(); q.pop_back();
		for (auto &a : I.actions) {
			bool ok = true; for (int f : a.pre) if (!c[f]) { ok = false; break; }
			if (!ok) continue;
			auto n = c; applyTo(a, n);
			if (out.insert(n).second) { q.push_back(n); if (out.size() > cap) return false; }
		}
	}
	return true;
}

// Exact decision for totally ordered instances (recursion included): least fixpoint of
// "task t turns state s into s' with least cost c" over the reachable states.
static RefResult refTO(const Inst &I) {
	RefResult R;
	set<vector<bool>> rs; if (!reachableStates(I, rs, 64)) return R;
	vector<vector<bool>> st(rs.begin(), rs.end()); map<vector<bool>,int> ix; for (size_t i = 0; i < st.size(); i++) ix[st[i]] = i;
	int S = st.size(), T = I.tasks.size(); const int INF = INT_MAX / 4;
	vector<vector<int>> D(T, vector<int>((size_t)S * S, INF));
	for (size_t a = 0; a < I.actions.size(); a++) for (int s = 0; s < S; s++) {
		bool ok = true; for (int f : I.actions[a].pre) if (!st[s][f]) ok = false;
		if (!ok) continue; auto n = st[s]; applyTo(I.actions[a], n);
		D[a][(size_t)s * S + ix[n]] = I.actions[a].cost;
	}
	vector<vector<int>> seq;
	for (auto &m : I.methods) { int k = m.sub.size(); vector<int> pos(k); vector<vector<char>> c(k, vector<char>(k, 0)); for (auto &p : m.ord) c[p.first][p.second] = 1; for (int x = 0; x < k; x++) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (c[a][x] && c[x][b]) c[a][b] = 1; for (int a = 0; a < k; a++) pos[a] = a; sort(pos.begin(), pos.end(), [&](int a, int b) { return c[a][b]; }); vector<int> q; for (int p : pos) q.push_back(m.sub[p]); seq.push_back(q); }
	bool ch = true; int it = 0;
	while (ch && it++ < 400) {
		ch = false;
		for (size_t m = 0; m < I.methods.size(); m++) {
			vector<int> &dst = D[I.methods[m].task];
			for (int s = 0; s < S; s++) {
				vector<int> cur(S, INF), nx; cur[s] = 0;
				for (int t : seq[m]) { nx.assign(S, INF); for (int x = 0; x < S; x++) if (cur[x] < INF) { const int *row = &D[t][(size_t)x * S]; for (int y = 0; y < S; y++) if (row[y] < INF) nx[y] = min(nx[y], cur[x] + row[y]); } cur.swap(nx); }
				for (int y = 0; y < S; y++) if (cur[y] < dst[(size_t)s * S + y]) { dst[(size_t)s * S + y] = cur[y]; ch = true; }
			}
		}
	}
	if (ch) return R;
	vector<bool> s0(I.facts.size(), false); for (int f : I.s0) s0[f] = true; int s = ix[s0];
	int best = INF; for (int y = 0; y < S; y++) { bool g = true; for (int f : I.goal) if (!st[y][f]) g = false; if (g) best = min(best, D[I.init][(size_t)s * S + y]); }
	R.nodes = S; R.v = best < INF ? SOLVABLE : UNSOLVABLE; if (best < INF) { R.optCost = best; R.optKnown = true; }
	return R;
}

// Uniform-cost progression over (state, task network) with exact duplicate detection on a
// normalised (not canonical) network encoding. Complete for acyclic instances.
namespace {
struct Net { vector<short> task; vector<u64> after; };     // after[i]: bitmask of predecessors of i
struct Node { vector<u64> st; Net n; int cost; };
}
static string keyOf(const vector<u64> &st, Net &n) {
	// sort nodes by (number of predecessors, task, number of successors), stable on the previous order
	int k = n.task.size(); vector<int> succ(k, 0), p(k);
	for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (n.after[i] >> j & 1) succ[j]++;
	for (int i = 0; i < k; i++) p[i] = i;
	stable_sort(p.begin(), p.end(), [&](int a, int b) { int x = __builtin_popcountll(n.after[a]), y = __builtin_popcountll(n.after[b]); if (x != y) return x < y; if (n.task[a] != n.task[b]) return n.task[a] < n.task[b]; return succ[a] < succ[b]; });
	vector<int> inv(k); for (int i = 0; i < k; i++) inv[p[i]] = i;
	Net m; m.task.resize(k); m.after.assign(k, 0);
	for (int i = 0; i < k; i++) { m.task[i] = n.task[p[i]]; for (int j = 0; j < k; j++) if (n.after[p[i]] >> j & 1) m.after[i] |= 1ULL << inv[j]; }
	n = m; string s((const char *)st.data(), st.size() * 8);
	s.append((const char *)n.task.data(), k * 2); s.append((const char *)n.after.data(), k * 8); return s;
}
static RefResult refPO(const Inst &I, long cap) {
	RefResult R; int W = (I.facts.size() + 63) / 64; if (!W) W = 1;
	Node s; s.st.assign(W, 0); for (int f : I.s0) s.st[f / 64] |= 1ULL << (f % 64);
	s.n.task = {(short)I.init}; s.n.after = {0}; s.cost = 0;
	vector<vector<int>> mt(I.tasks.size()); for (size_t i = 0; i < I.methods.size(); i++) mt[I.methods[i].task].push_back(i);
	struct Q { int c; long seq; Node n; }; auto cmp = [](const Q *a, const Q *b) { return a->c != b->c ? a->c > b->c : a->seq > b->seq; };
	priority_queue<Q *, vector<Q *>, decltype(cmp)> q(cmp); unordered_map<string,int> seen; long seq = 0;
	vector<Q *> all;
	auto push = [&](Node &&n) { string k = keyOf(n.st, n.n); auto it = seen.find(k); if (it != seen.end() && it->second <= n.cost) return; seen[k] = n.cost; Q *e = new Q{n.cost, seq++, std::move(n)}; q.push(e); };
	push(std::move(s));
	bool over = false; bool big = false;
	while (!q.empty()) {
		Q *e = q.top(); q.pop(); Node cur = std::move(e->n); delete e;
		R.nodes++;
		{ Net t = cur.n; string k = keyOf(cur.st, t); if (seen[k] < cur.cost) continue; }
		if (cur.n.task.empty()) { bool g = true; for (int f : I.goal) if (!(cur.st[f / 64] >> (f % 64) & 1)) g = false; if (g) { R.v = SOLVABLE; R.optCost = cur.cost; R.optKnown = !big; break; } continue; }
		if (R.nodes > cap || seq > cap * 4) { over = true; break; }
		int k = cur.n.task.size(); int ab = -1;
		for (int i = 0; i < k; i++) if (I.isAbs(cur.n.task[i])) { ab = i; break; }
		if (ab >= 0) {
			for (int mi : mt[cur.n.task[ab]]) {
				const Method &m = I.methods[mi]; int j = m.sub.size(); if (k - 1 + j > 60) { big = true; continue; }
				Node nn; nn.st = cur.st; nn.cost = cur.cost; Net &N = nn.n;
				// old nodes keep their slot; slot ab is replaced by the first subtask, the rest are appended
				N.task = cur.n.task; N.after = cur.n.after;
				vector<int> slot(j); for (int x = 0; x < j; x++) if (x == 0) slot[x] = ab; else { slot[x] = N.task.size(); N.task.push_back(0); N.after.push_back(0); }
				u64 subs = 0; for (int x = 0; x < j; x++) subs |= 1ULL << slot[x];
				u64 preds = cur.n.after[ab];
				for (int x = 0; x < k; x++) if (x != ab && (cur.n.after[x] >> ab & 1)) N.after[x] |= subs;
				for (int x = 0; x < j; x++) { N.task[slot[x]] = m.sub[x]; N.after[slot[x]] = preds; }
				vector<vector<char>> c(j, vector<char>(j, 0)); for (auto &p : m.ord) c[p.first][p.second] = 1;
				for (int z = 0; z < j; z++) for (int a = 0; a < j; a++) for (int b = 0; b < j; b++) if (c[a][z] && c[z][b]) c[a][b] = 1;
				for (int a = 0; a < j; a++) for (int b = 0; b < j; b++) if (c[a][b]) N.after[slot[b]] |= 1ULL << slot[a];
				push(std::move(nn));
			}
		} else for (int i = 0; i < k; i++) if (!cur.n.after[i]) {
			const Action &a = I.actions[cur.n.task[i]]; bool ok = true; for (int f : a.pre) if (!(cur.st[f / 64] >> (f % 64) & 1)) ok = false;
			if (!ok) continue;
			Node nn; nn.st = cur.st; nn.cost = cur.cost + a.cost;
			if (a.cadd.empty() && a.cdel.empty()) { for (int f : a.del) nn.st[f / 64] &= ~(1ULL << (f % 64)); for (int f : a.add) nn.st[f / 64] |= 1ULL << (f % 64); }
			else { vector<bool> b(I.facts.size()); for (size_t f = 0; f < b.size(); f++) b[f] = nn.st[f / 64] >> (f % 64) & 1; applyTo(a, b); for (size_t f = 0; f < b.size(); f++) if (b[f]) nn.st[f / 64] |= 1ULL << (f % 64); else nn.st[f / 64] &= ~(1ULL << (f % 64)); }
			for (int x = 0; x < k; x++) if (x != i) { u64 m = cur.n.after[x]; u64 lo = m & ((1ULL << i) - 1), hi = i == 63 ? 0 : m >> (i + 1); nn.n.task.push_back(cur.n.task[x]); nn.n.after.push_back(lo | (hi << i)); }
			push(std::move(nn));
		}
	}
	if (R.v != SOLVABLE) R.v = (over || big) ? UNKNOWN : UNSOLVABLE;
	R.finite = !over && !big;
	while (!q.empty()) { delete q.top(); q.pop(); }
	return R;
}
RefResult refSolve(const Inst &I, long cap) {
	if (totallyOrdered(I)) { RefResult r = refTO(I); if (r.v != UNKNOWN) return r; }
	return refPO(I, cap);
}

// ---------------------------------------------------------------- plans
static vector<string> toks(const string &l) { vector<string> r; istringstream s(l); string t; while (s >> t) r.push_back(t); return r; }
static bool isInt(const string &s) { if (s.empty()) return false; size_t i = s[0] == '-' ? 1 : 0; if (i == s.size()) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }
vector<Plan> parseAllPlans(const string &out) {
	vector<Plan> R; istringstream in(out); string l; bool inP = false; Plan P; bool seenRoot = false;
	while (getline(in, l)) {
		if (l == "==>") { inP = true; P = Plan(); P.present = true; P.wellFormed = true; seenRoot = false; continue; }
		if (!inP) continue;
		if (l == "<==") { inP = false; if (!seenRoot) { P.wellFormed = false; P.why = "no root line"; } R.push_back(P); continue; }
		auto t = toks(l); if (t.empty()) continue;
		if (t[0] == "root") { if (t.size() != 2 || !isInt(t[1])) { P.wellFormed = false; P.why = "bad root line: " + l; } else P.root = stoi(t[1]); seenRoot = true; continue; }
		if (!isInt(t[0])) { P.wellFormed = false; P.why = "bad line: " + l; continue; }
		if (!seenRoot) { if (t.size() != 2) { P.wellFormed = false; P.why = "bad action line: " + l; continue; } P.prim.push_back({stoi(t[0]), t[1]}); }
		else { if (t.size() < 4 || t[2] != "->") { P.wellFormed = false; P.why = "bad method line: " + l; continue; } Decomp d{stoi(t[0]), t[1], t[3], {}}; for (size_t i = 4; i < t.size(); i++) { if (!isInt(t[i])) { P.wellFormed = false; P.why = "bad child: " + l; break; } d.children.push_back(stoi(t[i])); } P.dec.push_back(d); }
	}
	if (inP) { P.wellFormed = false; P.why = "plan block not terminated"; R.push_back(P); }
	return R;
}
Plan parsePlan(const string &out) { auto v = parseAllPlans(out); if (v.empty()) return Plan(); v.back().count = v.size(); return v.back(); }

string checkPrimSeq(const Inst &I, const vector<string> &names, int *cost) {
	map<string,int> ai; for (size_t i = 0; i < I.actions.size(); i++) ai[I.tasks[i]] = i;
	vector<bool> s(I.facts.size(), false); for (int f : I.s0) s[f] = true; int c = 0, n = 0;
	for (auto &nm : names) {
		if (!ai.count(nm)) return "step " + to_string(n) + " is no action: " + nm;
		const Action &a = I.actions[ai[nm]];
		for (int f : a.pre) if (!s[f]) return "step " + to_string(n) + " (" + nm + ") not executable: " + I.facts[f] + " is false";
		applyTo(a, s); c += a.cost; n++;
	}
	for (int f : I.goal) if (!s[f]) return "goal fact " + I.facts[f] + " does not hold at the end";
	if (cost) *cost = c;
	return "";
}
string checkPlan(const Inst &I, const Plan &P, int *cost, bool) {
	if (!P.present) return "no plan printed";
	if (!P.wellFormed) return "malformed plan: " + P.why;
	vector<string> nm; for (auto &p : P.prim) nm.push_back(p.task);
	string e = checkPrimSeq(I, nm, cost); if (!e.empty()) return e;
	map<string,int> ti; for (size_t i = 0; i < I.tasks.size(); i++) ti[I.tasks[i]] = i;
	map<int,int> primPos; map<int,const Decomp *> D; map<int,int> idTask;
	for (size_t i = 0; i < P.prim.size(); i++) { if (!primPos.insert({P.prim[i].id, (int)i}).second) return "duplicate id " + to_string(P.prim[i].id); idTask[P.prim[i].id] = ti[P.prim[i].task]; }
	for (auto &d : P.dec) { if (primPos.count(d.id) || !D.insert({d.id, &d}).second) return "duplicate id " + to_string(d.id); if (!ti.count(d.task)) return "unknown task " + d.task; idTask[d.id] = ti[d.task]; }
	if (!D.count(P.root)) return "root id " + to_string(P.root) + " is no decomposition";
	if (idTask[P.root] != I.init) return "root is not the initial task";
	map<int,int> par; for (auto &d : P.dec) for (int c : d.children) { if (!idTask.count(c)) return "child id " + to_string(c) + " undefined"; if (!par.insert({c, d.id}).second) return "id " + to_string(c) + " has two parents"; }
	if (par.count(P.root)) return "root has a parent";
	for (auto &x : idTask) if (x.first != P.root && !par.count(x.first)) return "id " + to_string(x.first) + " is not derived from the root";
	// acyclic: follow parents to the root
	for (auto &x : idTask) { int c = x.first, n = 0; while (c != P.root) { c = par[c]; if (++n > 100000) return "decomposition is cyclic"; } }
	// leaf ranges
	map<int,pair<int,int>> rng; // id -> (min,max) leaf position
	function<pair<int,int>(int)> go = [&](int id) -> pair<int,int> {
		if (primPos.count(id)) { int p = primPos[id]; return rng[id] = {p, p}; }
		pair<int,int> r{INT_MAX, -1}; for (int c : D[id]->children) { auto x = go(c); r.first = min(r.first, x.first); r.second = max(r.second, x.second); } return rng[id] = r; };
	go(P.root);
	map<string,vector<int>> mi; for (size_t i = 0; i < I.methods.size(); i++) mi[I.methods[i].name].push_back(i);
	for (auto &d : P.dec) {
		if (!mi.count(d.method)) return "unknown method " + d.method;
		string why = "method " + d.method + " does not decompose " + d.task; bool good = false;
		for (int m : mi[d.method]) {
			const Method &M = I.methods[m]; if (M.task != ti[d.task]) continue;
			if (M.sub.size() != d.children.size()) { why = "method " + d.method + " of " + d.task + ": wrong number of subtasks"; continue; }
			int k = M.sub.size(); vector<int> as(k, -1); vector<char> used(k, 0);
			vector<vector<char>> c(k, vector<char>(k, 0)); for (auto &p : M.ord) c[p.first][p.second] = 1;
			function<bool(int)> mat = [&](int i) -> bool {
				if (i == k) return true;
				for (int j0 = 0; j0 < k; j0++) { int j = (i + j0) % k; if (used[j] || idTask[d.children[j]] != M.sub[i]) continue;
					bool ok = true; for (int x = 0; x < i && ok; x++) { auto a = rng[d.children[as[x]]], b = rng[d.children[j]]; if (c[x][i] && !(a.second < b.first)) ok = false; if (c[i][x] && !(b.second < a.first)) ok = false; }
					if (!ok) continue; used[j] = 1; as[i] = j; if (mat(i + 1)) return true; used[j] = 0; as[i] = -1; }
				return false; };
			if (mat(0)) { good = true; break; } else why = "subtasks or ordering of method " + d.method + " (id " + to_string(d.id) + ") are violated";
		}
		if (!good) return why;
	}
	return "";
}
}
