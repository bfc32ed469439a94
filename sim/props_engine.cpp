// Properties of the planner: how scenarios are drawn and what is checked.
#include "driver.hpp"
#include <cmath>
#include "monitor.hpp"
#include <algorithm>
#include <climits>
#include <cstring>
#include <functional>
#include <tuple>
#include <sstream>
using namespace std;
namespace vsim {
// ------------------------------------------------------------------ helpers
static void envSwarm(Rng &r, Scenario &s, bool io = true) {
	if (r.chance(2, 3)) s.sim.heapPolicy = r.below(4);
	if (r.chance(2, 3)) s.sim.heapFill = r.below(4);
	if (r.chance(1, 2)) s.sim.clockMode = r.below(3);
	if (r.chance(1, 3)) { s.sim.jumpAt[0] = r.below(40); s.sim.jumpBy[0] = (int64_t)r.range(-3600, 600) * 1000000LL; }
	if (io) { if (r.chance(1, 3)) { static const int ch[] = {1, 2, 3, 7, 16, 64, 509, 4096}; s.sim.readShort = ch[r.below(8)]; }
	if (r.chance(1, 5)) { s.sim.readEintrAt = r.below(4); s.sim.readEintrLen = r.range(1, 3); } }
}
// One subtask becomes a task with so many methods, each over an action of its own, that the tables and encodings that
// change their shape with the size (words of 64 bits, ids of 8 bits, encodings for more than 255 alternatives) do so.
static void widen(Rng &r, Scenario &s) {
	Inst &I = s.inst; vector<pair<int,int>> at; for (size_t m = 0; m < I.methods.size(); m++) for (size_t q = 0; q < I.methods[m].sub.size(); q++) if (!I.isAbs(I.methods[m].sub[q])) at.push_back({(int)m, (int)q});
	if (at.empty() || I.actions.empty()) return;
	static const int N[] = {60, 66, 127, 130, 254, 256, 257, 259, 270, 300, 340}; int n = N[r.below(11)], na = I.actions.size(), nt = I.tasks.size(); auto where = r.pick(at);
	vector<Action> extra; for (int i = 0; i < n; i++) { Action a = I.actions[r.chance(1, 2) ? I.methods[where.first].sub[where.second] : r.below(na)]; a.cost = r.below(4);
		if (r.chance(2, 3)) { int f = r.below(I.facts.size()); bool dup = false; for (auto &v : I.vars) if (f >= v.first && f <= v.last) for (int x : a.pre) dup |= x >= v.first && x <= v.last; if (!dup) a.pre.push_back(f); } if (r.chance(1, 3) && a.add.size() > 0 && a.del.empty()) a.add.clear(); extra.push_back(a); }
	auto sh = [&](int t) { return t >= na ? t + n : t; }; vector<string> names(I.tasks.begin(), I.tasks.begin() + na); for (int i = 0; i < n; i++) names.push_back("w" + to_string(i) + "[]"); names.insert(names.end(), I.tasks.begin() + na, I.tasks.end()); names.push_back("wide[]");
	for (auto &m : I.methods) { m.task = sh(m.task); for (int &t : m.sub) t = sh(t); } I.init = sh(I.init); I.tasks = names; I.nAbs++; I.actions.insert(I.actions.end(), extra.begin(), extra.end()); int w = nt + n; I.methods[where.first].sub[where.second] = w;
	for (int i = 0; i < n; i++) { Method M; M.name = "mw" + to_string(i) + "[]"; M.task = w; M.sub = {na + i}; if (r.chance(1, 8)) { M.sub.push_back(na + r.below(n)); M.ord = {{0, 1}}; } I.methods.push_back(M); }
	closeUnreachable(I);
}
static void solvableBias(Rng &r, const GenCfg &g, Scenario &s, int num = 3, int den = 4) {
	for (int k = 0;; k++) { s.inst = genInst(r, g); if (k >= 6 || !r.chance(num, den)) break; if (refSolve(s.inst, 3000).v == SOLVABLE) break; }
	if (r.chance(1, 40)) widen(r, s);
}
static const vector<string> HEUR{"zero", "modDepth", "mixedModDepth", "cost", "rc2(ff)", "rc2(add)", "rc2(lmc)", "rc2(filter)", "rc2(ff;est=cost)", "rc2(lmc;est=cost)", "rc2(add;est=cost)", "rc2(add;est=mixed)", "rc2(ff;est=mixed)", "rc2(lmc;est=mixed)", "rc2(ff;distance;no)", "rc2(lmc;est=cost;taskcount=no)", "rc2(add;est=cost;taskcount=no)", "modDepth(invert)", "mixedModDepth(invert)", "cost(invert)", "rc2(h=filter;est=cost)"};
static void progArgs(Rng &r, Scenario &s, bool limit, bool finite) {
	static const vector<string> G{"path", "action", "mixed", "none"};
	vector<string> H = HEUR; if (!finite) H.resize(17);     // the inverted ones dive forever in infinite spaces
	s.args = {"-H", r.pick(H), "-g", r.pick(G), "-S", to_string(r.below(100000))};
	if (r.chance(1, 3)) { s.args.push_back("-H"); s.args.push_back(r.pick(H)); if (r.chance(1, 4)) { s.args.push_back("-H"); s.args.push_back(r.pick(H)); } }
	if (r.chance(1, 3)) { s.args.push_back("-w"); s.args.push_back(to_string(r.range(1, 5))); }
	if (r.chance(2, 5)) s.args.push_back("--suboptimal");
	for (const char *o : {"-T", "-Q", "-O", "--noLayers", "--noOrderPairs", "--noParallelSequences", "--noGIcheck"}) if (r.chance(1, 5)) s.args.push_back(o);
	if (r.chance(1, 15)) s.args.push_back("-V");
	if (limit) { s.args.push_back("-t"); s.args.push_back(to_string(r.range(1, 5))); }
}
// options whose documentation says that they make pruning incomplete are not used where completeness is checked
static void dropIncomplete(Scenario &s) {
	vector<string> a; for (auto &x : s.args) { if (x == "--noGIcheck" || x == "-O") continue; a.push_back(x); } s.args = a;
}
static bool has(const Scenario &s, const char *a) { return find(s.args.begin(), s.args.end(), string(a)) != s.args.end(); }
static string argAfter(const Scenario &s, const char *a) { for (size_t i = 0; i + 1 < s.args.size(); i++) if (s.args[i] == a) return s.args[i + 1]; return ""; }
// totally ordered below disjoint sequences in the first method
static bool sequencesOf(const Inst &I) {
	for (auto &m : I.methods) { int k = m.sub.size(); vector<vector<char>> c(k, vector<char>(k, 0)); for (auto &o : m.ord) c[o.first][o.second] = 1;
		for (int x = 0; x < k; x++) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (c[a][x] && c[x][b]) c[a][b] = 1;
		for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (a != b && !c[a][b] && !c[b][a]) { if (m.task != I.init) return false; for (int x = 0; x < k; x++) if ((c[x][a] && c[x][b]) || (c[a][x] && c[b][x])) return false; } }
	return true;
}
// one word for how a progression run ended
string clsOf(const RunOut &o) {
	if (o.sh.budgetHit) return "budget";
	if (o.watchdog) return o.stuck ? "hang" : "budget";
	if (o.code == 96) return string("heap:") + o.sh.note;
	if (o.sig) return "signal" + to_string(o.sig);
	if (o.code) return "exit" + to_string(o.code);
	int k = o.has("Status: Solved") + o.has("Status: Timeout") + o.has("Status: Proven unsolvable");
	if (k == 1) return o.has("Status: Solved") ? "solved" : o.has("Status: Timeout") ? "timeout" : "unsolvable";
	return k ? "contradictory" : "silent";
}
static bool crashy(const string &c) { return c.compare(0, 6, "signal") == 0 || c.compare(0, 5, "heap:") == 0 || c.compare(0, 4, "exit") == 0 || c == "silent" || c == "contradictory"; }
static long numAfter(const string &o, const char *key) { size_t p = o.find(key); return p == string::npos ? -1 : atol(o.c_str() + p + strlen(key)); }
static Verdict V(const string &cls) { Verdict v; v.cls = cls; return v; }
// no task network has more tasks than its largest decomposition has actions (there are no empty methods)
static long largestNetwork(const Inst &I) {
	if (cyclic(I)) return LONG_MAX; map<int, long> memo; function<long(int)> f = [&](int t) -> long { if (!I.isAbs(t)) return 1; auto it = memo.find(t); if (it != memo.end()) return it->second; long b = 1; for (auto &m : I.methods) if (m.task == t) { long x = 0; for (int u : m.sub) x += f(u); b = max(b, x); } return memo[t] = b; };
	return f(I.init);
}
static vector<int> netDel(const Action &a) { vector<int> d; for (int f : a.del) if (find(a.add.begin(), a.add.end(), f) == a.add.end()) d.push_back(f); return d; }
static Verdict bad(Verdict v, const string &k, const string &d) { v.kind = k; v.detail = d; return v; }
static GenCfg anyGen(Rng &r, int tier) {
	GenCfg g; g.maxVars = r.range(2, tier ? 6 : 5); g.maxActions = r.range(2, tier ? 9 : 7); g.maxAbs = r.range(1, tier ? 7 : 6); g.maxMethods = r.range(1, 4); g.maxArity = r.range(1, 5); g.bigStates = r.chance(1, 8); if (r.chance(1, 6)) g.unitCost = true; if (r.chance(1, 3)) { g.few = true; g.maxArity = r.range(2, 6); } if (r.chance(1, 3)) g.twins = true; if (r.chance(1, 10)) g.maxCost = r.chance(1, 2) ? 3000 : 1000000; return g;
}
// what must be the same in every environment
static string normal(const string &out) {
	istringstream in(out); string l, r; bool plan = false;
	while (getline(in, l)) {
		if (l == "==>") plan = true;
		bool keep = plan || l.find("- Generated ") == 0 || l.find("- Status") == 0 || l.find("- Found solution") == 0 || l.find("- Total costs") == 0 || l.find("- Visited list inserts") == 0 || l.find("- Visited list pruned") == 0 || l.find("- Visited list contains") == 0 || l.find("One modifications") != string::npos || l.find("Effectless") != string::npos || l.find("nsolvable") != string::npos || l.find("Goal reached!") == 0 || l.find("Cost: search=") == 0;
		if (l.find("nodes per second") != string::npos) keep = false;
		if (keep) r += l + "\n";
		if (l == "<==") plan = false;
	}
	return r;
}

// whatever went wrong during a run: nothing that it printed may be false.  Returns the violation, if there is one.
static Verdict noLie(const Scenario &s, const RunOut &o, Verdict v) {
	bool bdd = has(s, "-b"), sat = has(s, "-s"), tr = has(s, "-2"), prog = !bdd && !sat && !tr; vector<Plan> ps = parseAllPlans(o.out); RefResult ref; bool refDone = false;
	auto solved = [&]() -> RefResult & { if (!refDone) { ref = refSolve(s.inst); refDone = true; } return ref; };
	bool ended = !o.sig && !o.code && !o.sh.budgetHit && !o.watchdog, said = false;
	for (size_t i = 0; i < ps.size(); i++) {
		if (ps[i].why == "plan block not terminated") { if (ended) return bad(v, "torn-plan", "exit 0 after half a plan"); continue; }
		int cost; string e = checkPlan(s.inst, ps[i], &cost); if (!e.empty()) return bad(v, "invalid-plan", e); said = true;
		if (prog) { long pc = numAfter(o.out, "- Total costs of actions: "); if (pc != cost) return bad(v, "wrong-cost", "printed cost " + to_string(pc) + ", plan costs " + to_string(cost)); }
		if (bdd && solved().optKnown && cost != ref.optCost) return bad(v, "suboptimal", "plan of cost " + to_string(cost) + ", optimum is " + to_string(ref.optCost));
		if (s.o("opt") && solved().optKnown && cost > ref.optCost) return bad(v, "suboptimal", "plan of cost " + to_string(cost) + ", optimum is " + to_string(ref.optCost));
	}
	bool uns = prog ? o.has("Status: Proven unsolvable") : bdd && o.has("nsolvable"), sol = prog && o.has("Status: Solved");
	if (uns) { said = true; if (solved().v == SOLVABLE) return bad(v, "wrong-unsolvable", "reported unsolvable, but a solution of cost " + to_string(ref.optCost) + " exists"); }
	if (sol) { said = true; if (solved().v == UNSOLVABLE) return bad(v, "wrong-solved", "reported solved, but no solution exists"); }
	if (o.has("Status: Timeout")) said = true;
	if (ended && !said && !o.has("Edge case")) return bad(v, "silent", "exit 0 without a plan or a verdict");
	return v;
}
// a configuration of any of the planning algorithms
static void anyAlgorithm(Rng &r, Scenario &s, int tier, int mode, bool limit) {
	GenCfg g = anyGen(r, tier); if (mode == 1) { g.maxArity = 2; g.order = 0; g.bigStates = false; } if (mode >= 2) { g.maxArity = r.range(1, 4); g.bigStates = false; } if (mode != 0 || r.chance(1, 2)) g.recursion = 0; if (mode == 3) g.maxVars = min(g.maxVars, 4);
	solvableBias(r, g, s, mode == 0 ? 2 : 5, mode == 0 ? 3 : 6); envSwarm(r, s, false); s.sim.allocBudget = 600000; s.sim.byteBudget = 600000000;
	static const vector<string> T{"push", "parallelseq", "to", "postrips", "pocond"}, PR{"none", "ff", "h2"}, A{"zero", "rc2(filter;est=cost)", "rc2(lmc;est=cost)"};
	if (mode == 0) { progArgs(r, s, limit, !cyclic(s.inst)); dropIncomplete(s); s.sim.clockStep = 20000; if (r.chance(1, 3)) { s.args.erase(remove(s.args.begin(), s.args.end(), string("--suboptimal")), s.args.end()); s.args.erase(remove(s.args.begin(), s.args.end(), string("-V")), s.args.end()); s.args[1] = r.pick(A); s.args[3] = "action"; s.opt["opt"] = 1; for (size_t i = 0; i + 1 < s.args.size(); i++) if (s.args[i] == "-w") s.args[i + 1] = "1"; } }
	else if (mode == 1) { s.args = {"-b"}; static const unsigned SL[] = {2, 16, 256}; s.bdd.slots = SL[r.below(3)]; s.bdd.cache = 256; }
	else if (mode == 2) { s.args = {"-s", "-P", r.pick(PR)}; for (const char *o : {"-B", "-M", "--orderOutput"}) if (r.chance(1, 4)) s.args.push_back(o); s.sat.phaseMode = r.below(18); s.sat.maxSolves = 40; }
	else { s.args = {"-2", "--iterate", "--downward", "./fd", "--transtype", r.pick(T)}; if (r.chance(1, 3)) s.args.push_back("--realCosts"); s.peer.order = r.below(3); s.peer.nodeCap = 30000; s.sim.allocBudget = 60000 + 1500 * s.inst.actions.size(); }
}

// ---------------------------------------------------------------- HDDL
struct SX { string a; vector<SX> l; bool atom = false; };
static bool sx(const string &t, size_t &p, SX &o, int depth = 0) {
	auto ws = [&]() { while (p < t.size() && isspace((unsigned char)t[p])) p++; }; ws(); if (p >= t.size() || depth > 50) return false;
	if (t[p] == '(') { p++; for (;;) { ws(); if (p >= t.size()) return false; if (t[p] == ')') { p++; return true; } o.l.emplace_back(); if (!sx(t, p, o.l.back(), depth + 1)) return false; } }
	if (t[p] == ')') return false;
	o.atom = true; while (p < t.size() && !isspace((unsigned char)t[p]) && t[p] != '(' && t[p] != ')') o.a += t[p++]; return true;
}
static bool sxAll(const string &t, SX &o) { size_t p = 0; if (!sx(t, p, o)) return false; while (p < t.size() && isspace((unsigned char)t[p])) p++; return p == t.size(); }
static string hname(string s) { for (char &c : s) if (strchr(",;][|!()?<>", c)) c = '_'; else if (c == '+') c = 'p'; else if (c == '-') c = 'm'; return s[0] == '_' ? "x" + s : s; }
struct HElem { string name; };
static string facts(const SX &a, set<string> &pos, set<string> *neg) { if (a.l.empty()) return a.atom ? "no condition" : ""; size_t i0 = a.l[0].atom && a.l[0].a == "and" ? 1 : 0; auto one = [&](const SX &x) -> string { if (x.l.size() == 1 && x.l[0].atom) { pos.insert(x.l[0].a); return ""; } if (neg && x.l.size() == 2 && x.l[0].a == "not" && x.l[1].l.size() == 1) { neg->insert(x.l[1].l[0].a); return ""; } return "not a literal"; }; if (!i0) return one(a); for (size_t i = 1; i < a.l.size(); i++) { string e = one(a.l[i]); if (!e.empty()) return e; } return ""; }
// the exported problem is the problem (up to no-ops, and to writing first actions without effects as preconditions)
static string checkHddl(const Inst &I, const string &dom, const string &prob) {
	SX D, P; if (!sxAll(dom, D)) return "the domain is not a list expression"; if (!sxAll(prob, P)) return "the problem is not a list expression";
	auto names = [&](const vector<int> &v) { set<string> r; for (int f : v) r.insert(hname(I.facts[f])); return r; };
	vector<string> preds, tasks; map<string, const SX *> acts; vector<const SX *> meths; int na = I.actions.size();
	auto key = [](const SX &x, const char *k) -> const SX * { for (size_t i = 0; i + 1 < x.l.size(); i++) if (x.l[i].atom && x.l[i].a == k) return &x.l[i + 1]; return nullptr; };
	for (size_t i = 0; i < D.l.size(); i++) { const SX &x = D.l[i]; if (x.l.empty()) continue; string h = x.l[0].a;
		if (h == ":predicates") for (size_t k = 1; k < x.l.size(); k++) preds.push_back(x.l[k].l.size() ? x.l[k].l[0].a : "");
		else if (h == ":task") tasks.push_back(x.l.size() > 1 ? x.l[1].a : ""); else if (h == ":action") { if (x.l.size() < 2 || !acts.insert({x.l[1].a, &x}).second) return "an action is defined twice"; } else if (h == ":method") meths.push_back(&x); }
	{ vector<string> w; for (auto &f : I.facts) w.push_back(hname(f)); sort(w.begin(), w.end()); sort(preds.begin(), preds.end()); if (w != preds) return "the predicates are not the facts"; w.clear(); for (size_t t = na; t < I.tasks.size(); t++) w.push_back(hname(I.tasks[t])); sort(w.begin(), w.end()); sort(tasks.begin(), tasks.end()); if (w != tasks) return "the tasks are not the abstract tasks"; }
	if (meths.size() != I.methods.size()) return to_string(meths.size()) + " methods instead of " + to_string(I.methods.size());
	set<string> used; if (I.init < na) used.insert(hname(I.tasks[I.init]));
	for (size_t mi = 0; mi < meths.size(); mi++) {
		const SX &x = *meths[mi]; const Method &M = I.methods[mi]; string at = "method " + M.name + ": "; int k = M.sub.size(); vector<vector<char>> c(k, vector<char>(k, 0)); for (auto &o : M.ord) c[o.first][o.second] = 1;
		for (int y = 0; y < k; y++) for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) if (c[a][y] && c[y][b]) c[a][b] = 1;
		const SX *t = key(x, ":task"); if (!t || t->l.size() != 1 || t->l[0].a != hname(I.tasks[M.task])) return at + "decomposes another task";
		vector<char> gone(k, 0); if (const SX *q = key(x, ":precondition")) { set<string> f; string e = facts(*q, f, nullptr); if (!e.empty()) return at + e; int z = -1; for (int i = 0; i < k && z < 0; i++) if (M.sub[i] < na && I.actions[M.sub[i]].add.empty() && I.actions[M.sub[i]].del.empty() && names(I.actions[M.sub[i]].pre) == f) { bool first = true; for (int j = 0; j < k; j++) if (j != i && !c[i][j]) first = false; if (first) z = i; } if (z < 0 && !f.empty()) return at + "has a precondition that is not its first action's"; if (z >= 0) gone[z] = 1; }
		vector<string> es; vector<vector<char>> eo; const SX *q = key(x, ":ordered-subtasks");
		if (q) { for (size_t i = 0; i < q->l.size(); i++) if (q->l[i].l.size() == 1) es.push_back(q->l[i].l[0].a); else if (!q->l[i].atom) return at + "bad subtask"; eo.assign(es.size(), vector<char>(es.size(), 0)); for (size_t a = 0; a < es.size(); a++) for (size_t b = a + 1; b < es.size(); b++) eo[a][b] = 1; }
		else { q = key(x, ":subtasks"); if (!q) return at + "no subtasks"; map<string, int> id; for (auto &y : q->l) { if (y.atom) continue; if (y.l.size() != 2 || y.l[1].l.size() != 1) return at + "bad subtask"; if (!id.insert({y.l[0].a, (int)es.size()}).second) return at + "identifier given twice"; es.push_back(y.l[1].l[0].a); }
			eo.assign(es.size(), vector<char>(es.size(), 0)); if (const SX *o = key(x, ":ordering")) for (auto &y : o->l) { if (y.atom) continue; if (y.l.size() != 3 || y.l[1].a != "<" || !id.count(y.l[0].a) || !id.count(y.l[2].a)) return at + "ordering of undefined subtasks"; eo[id[y.l[0].a]][id[y.l[2].a]] = 1; }
			int n = es.size(); for (int y = 0; y < n; y++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (eo[a][y] && eo[y][b]) eo[a][b] = 1; }
		for (auto &e : es) used.insert(e);
		for (int i = 0; i < k; i++) if (I.tasks[M.sub[i]].compare(0, 6, "__noop") == 0 && !count(es.begin(), es.end(), hname(I.tasks[M.sub[i]]))) gone[i] = 1;
		vector<int> left; for (int i = 0; i < k; i++) if (!gone[i]) left.push_back(i); if (left.size() != es.size()) return at + to_string(es.size()) + " subtasks instead of " + to_string(left.size());
		vector<int> as(es.size(), -1); vector<char> tk(es.size(), 0); function<bool(size_t)> iso = [&](size_t i) { if (i == es.size()) return true; for (size_t j = 0; j < left.size(); j++) { if (tk[j] || hname(I.tasks[M.sub[left[j]]]) != es[i]) continue; bool ok = true; for (size_t h = 0; h < i && ok; h++) if (eo[h][i] != c[left[as[h]]][left[j]] || eo[i][h] != c[left[j]][left[as[h]]]) ok = false; if (!ok) continue; as[i] = j; tk[j] = 1; if (iso(i + 1)) return true; tk[j] = 0; } return false; };
		if (!iso(0)) return at + "other subtasks or another order";
	}
	for (int a = 0; a < na; a++) { string n = hname(I.tasks[a]); auto it = acts.find(n); if (it == acts.end()) { if (used.count(n)) return "action " + n + " is used but not defined"; continue; } const SX &x = *it->second; set<string> p, ad, de; string e; if (const SX *q = key(x, ":precondition")) e = facts(*q, p, nullptr); if (e.empty()) if (const SX *q = key(x, ":effect")) e = facts(*q, ad, &de); if (!e.empty()) return "action " + n + ": " + e; if (p != names(I.actions[a].pre)) return "action " + n + " has another precondition"; for (auto &f : ad) de.erase(f); if (ad != names(I.actions[a].add) || de != names(netDel(I.actions[a]))) return "action " + n + " has other effects"; acts.erase(it); }
	if (!acts.empty()) return "action " + acts.begin()->first + " does not exist";
	set<string> in, go; string e; bool haveInit = false, haveTn = false;
	for (auto &x : P.l) { if (x.l.empty()) continue; string h = x.l[0].a; if (h == ":init") { haveInit = true; for (size_t i = 1; i < x.l.size(); i++) if (x.l[i].l.size() != 1) return "bad initial state"; else in.insert(x.l[i].l[0].a); } else if (h == ":goal" && x.l.size() == 2) { e = facts(x.l[1], go, nullptr); if (!e.empty()) return "goal: " + e; } else if (h == ":htn") { const SX *q = key(x, ":subtasks"); int n = 0; string one; if (q) for (auto &y : q->l) if (!y.atom) { n++; one = y.l.size() == 1 ? y.l[0].a : ""; } if (n != 1 || one != hname(I.tasks[I.init])) return "the initial task is another one"; haveTn = true; } }
	if (!haveInit || !haveTn) return "no initial state or no initial task"; if (in != names(I.s0)) return "the initial state is another one"; if (go != names(I.goal)) return "the goal is another one";
	return "";
}
// ---------------------------------------------------------------- a user at the interactive planner
struct Net { vector<int> task; vector<vector<char>> before; vector<bool> st; bool operator<(const Net &o) const { return tie(task, before, st) < tie(o.task, o.before, o.st); } };
static string checkDialog(const Inst &I, const string &out, const string &in, Ctx &c, bool &some) {
	vector<string> L; { istringstream i(out); string l; while (getline(i, l)) L.push_back(l); }
	size_t p = 0; while (p < L.size() && L[p].find("YouPlan!") == string::npos) p++; if (p == L.size()) return "no dialogue"; p++;
	istringstream user(in); int na = I.actions.size(); set<Net> cur; { Net n; n.task = {I.init}; n.before = {{0}}; n.st.assign(I.facts.size(), false); for (int f : I.s0) n.st[f] = true; cur.insert(n); }
	auto ready = [&](const Net &n) { vector<int> r; for (size_t i = 0; i < n.task.size(); i++) { bool b = false; for (size_t j = 0; j < n.task.size(); j++) if (n.before[j][i]) b = true; if (!b) r.push_back(i); } return r; };
	auto menu = [&](size_t &q, vector<string> &m) { while (q < L.size()) { string w = to_string(m.size()) + " "; if (L[q].compare(0, w.size(), w)) break; m.push_back(L[q++].substr(w.size())); } };
	auto dec = [&](const Net &n, int i, const Method &M) { Net r; int k = n.task.size(), s = M.sub.size(); r.st = n.st; vector<int> old; for (int j = 0; j < k; j++) if (j != i) { old.push_back(j); r.task.push_back(n.task[j]); } int base = old.size(); for (int t : M.sub) r.task.push_back(t); r.before.assign(base + s, vector<char>(base + s, 0)); for (int a = 0; a < base; a++) for (int b = 0; b < base; b++) r.before[a][b] = n.before[old[a]][old[b]]; for (int b = 0; b < base; b++) if (n.before[i][old[b]]) for (int a = 0; a < s; a++) r.before[base + a][b] = 1; for (auto &o : M.ord) r.before[base + o.first][base + o.second] = 1; for (int x = 0; x < s; x++) for (int a = 0; a < s; a++) for (int b = 0; b < s; b++) if (r.before[base + a][base + x] && r.before[base + x][base + b]) r.before[base + a][base + b] = 1; return r; };
	auto exe = [&](const Net &n, int i) { const Action &A = I.actions[n.task[i]]; Net r; vector<int> old; for (size_t j = 0; j < n.task.size(); j++) if ((int)j != i) { old.push_back(j); r.task.push_back(n.task[j]); } r.before.assign(old.size(), vector<char>(old.size(), 0)); for (size_t a = 0; a < old.size(); a++) for (size_t b = 0; b < old.size(); b++) r.before[a][b] = n.before[old[a]][old[b]]; r.st = n.st; for (int f : A.del) r.st[f] = false; for (int f : A.add) r.st[f] = true; return r; };
	auto can = [&](const Net &n, int t) { for (int f : I.actions[t].pre) if (!n.st[f]) return false; return true; };
	// the planner itself executes actions without effects, and the only applicable action if nothing else can be done
	auto closure = [&](set<Net> &N) { vector<Net> q(N.begin(), N.end()); for (size_t x = 0; x < q.size(); x++) { Net n = q[x]; int only = -1, k = 0; for (int i : ready(n)) { int t = n.task[i]; if (t >= na) { k = 100; continue; } if (!can(n, t)) continue; k++; only = i; if (I.actions[t].add.empty() && I.actions[t].del.empty()) { Net r = exe(n, i); if (N.insert(r).second) q.push_back(r); } } if (k == 1) { Net r = exe(n, only); if (N.insert(r).second) q.push_back(r); } if (N.size() > 3000) return false; } return true; };
	enum { EOF_ = -1000 }; auto ask = [&](long lo, long hi) -> long { string w; while (user >> w) { char *e; long v = strtol(w.c_str(), &e, 10); if (*e == 0 && v >= lo && v < hi) return v; if (p < L.size() && L[p].find("Please enter") == 0) p++; } return EOF_; };
	if (!closure(cur)) return "";
	for (int step = 0; step < 400; step++) {
		vector<string> m; menu(p, m); if (p >= L.size()) return m.empty() && step ? "" : "the dialogue ends within a menu"; if (L[p] != "What to do?") return "no menu but '" + L[p].substr(0, 80) + "'"; p++; c.probes.insert("menu");
		vector<string> w = m; sort(w.begin(), w.end()); set<Net> keep; for (auto &n : cur) { vector<string> g; for (int i : ready(n)) g.push_back(I.tasks[n.task[i]]); sort(g.begin(), g.end()); if (g == w) keep.insert(n); } if (keep.empty()) return "a menu that does not show the tasks that can be processed next"; cur = keep;
		long ch; if (m.size() == 1) ch = 0; else { ch = ask(-2, (long)m.size()); if (ch < 0) { if (ch == EOF_) c.probes.insert("end of the input"); some = step > 1; return p == L.size() ? "" : "goes on after the end: " + L[p].substr(0, 80); } }
		string name = m[ch]; set<Net> nx; bool abs = false; int task = -1; for (size_t t = 0; t < I.tasks.size(); t++) if (I.tasks[t] == name) task = t; abs = task >= na;
		if (abs) {
			vector<string> mm; menu(p, mm); vector<int> ms; for (size_t i = 0; i < I.methods.size(); i++) if (I.methods[i].task == task) ms.push_back(i);
			{ vector<string> a = mm, b; for (int i : ms) b.push_back(I.methods[i].name); sort(a.begin(), a.end()); sort(b.begin(), b.end()); if (a != b) return "the methods of " + name + " are others"; }
			if (p >= L.size() || L[p] != "Which method to use?") return "no question for the method"; p++;
			long cm; if (mm.size() == 1) cm = 0; else { cm = ask(-1, (long)mm.size()); if (cm == EOF_) { c.probes.insert("end of the input"); some = step > 1; return p == L.size() ? "" : "goes on after the end: " + L[p].substr(0, 80); } if (cm < 0) { c.probes.insert("went back"); continue; } }
			const Method *M = nullptr; for (int i : ms) if (I.methods[i].name == mm[cm]) M = &I.methods[i];
			for (auto &n : cur) for (int i : ready(n)) if (n.task[i] == task) nx.insert(dec(n, i, *M));
			c.probes.insert("decomposed");
		} else {
			auto list = [&](const char *h, vector<int> want) -> string { if (p >= L.size() || L[p] != h) return "no list of " + string(h); p++; vector<string> a, b; while (p < L.size() && L[p].compare(0, 2, "- ") == 0) { a.push_back(L[p].substr(2)); p++; } for (int f : want) b.push_back(to_string(f) + " " + I.facts[f]); sort(a.begin(), a.end()); a.erase(unique(a.begin(), a.end()), a.end()); sort(b.begin(), b.end()); b.erase(unique(b.begin(), b.end()), b.end()); return a == b ? "" : "wrong list of " + string(h); };
			const Action &A = I.actions[task]; string e = list("prec:", A.pre); if (e.empty()) e = list("add:", A.add); if (e.empty()) { auto at = p; e = list("del:", netDel(A)); if (!e.empty()) { p = at; e = list("del:", A.del); } } if (!e.empty()) return name + ": " + e;
			bool refused = p < L.size() && L[p].find("not applicable") != string::npos; if (refused) p++;
			set<Net> fit; for (auto &n : cur) if (can(n, task) != refused) fit.insert(n); if (fit.empty()) return name + (refused ? " was refused although it is applicable" : " was executed although it is not applicable"); cur = fit;
			if (refused) { c.probes.insert("refused"); if (m.size() == 1) { some = step > 1; return p == L.size() ? "" : "goes on without a choice"; } continue; }
			for (auto &n : cur) for (int i : ready(n)) if (n.task[i] == task) nx.insert(exe(n, i));
			c.probes.insert("executed");
		}
		if (!closure(nx)) { some = true; return ""; } cur = nx;
	}
	some = true; return "";
}

vector<Prop> engineProps() {
	vector<Prop> P;
	// ---------------------------------------------------------------- progression: soundness
	auto genProg = [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); solvableBias(r, g, s, 5, 6); envSwarm(r, s); if (r.chance(1, 3)) s.sim.randMode = r.below(5);
		bool fin = !cyclic(s.inst); progArgs(r, s, true, fin); s.sim.clockStep = r.range(1, 60) * 10000; s.sim.allocBudget = 3000000; s.sim.byteBudget = 600000000;
	};
	P.push_back({"E01", genProg, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); v.nontrivial = v.cls == "solved"; v.inconclusive = v.cls == "budget" || v.cls == "timeout";
		if (v.cls == "solved" || parsePlan(o.out).present) {
			int cost; string e = checkPlan(s.inst, parsePlan(o.out), &cost); if (!e.empty()) return bad(v, "invalid-plan", e);
			long pc = numAfter(o.out, "- Total costs of actions: "); if (pc != cost) return bad(v, "wrong-cost", "printed cost " + to_string(pc) + ", plan costs " + to_string(cost));
			long len = numAfter(o.out, "- Found solution of length "); Plan p = parsePlan(o.out); if (len != (long)p.prim.size() + (long)p.dec.size() && len != (long)p.prim.size()) return bad(v, "wrong-length", "printed length " + to_string(len) + ", plan has " + to_string(p.prim.size()) + " actions and " + to_string(p.dec.size()) + " decompositions");
			if (v.cls != "solved") return bad(v, "plan-without-status", v.cls);
		}
		return v; }});
	// ---------------------------------------------------------------- progression: verdicts
	P.push_back({"E02", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.recursion = r.chance(2, 3) ? 0 : -1; solvableBias(r, g, s, 2, 3); envSwarm(r, s); if (r.chance(1, 3)) s.sim.randMode = r.below(5);
		bool fin = !cyclic(s.inst); progArgs(r, s, !fin, fin); dropIncomplete(s); if (r.chance(1, 12)) s.args.push_back("-N"); s.sim.clockStep = fin ? 100 : r.range(1, 60) * 10000; s.sim.allocBudget = 3000000; s.sim.byteBudget = 600000000;
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); v.inconclusive = v.cls == "budget";
		if (crashy(v.cls)) return bad(v, "no-verdict", v.cls + " " + o.sh.note);
		if (v.cls == "hang") return bad(v, "hang", "no end within the CPU bound");
		RefResult ref = refSolve(s.inst); v.nontrivial = ref.v != UNKNOWN && (v.cls == "solved" || v.cls == "unsolvable");
		if (v.cls == "unsolvable" && ref.v == SOLVABLE) return bad(v, "wrong-unsolvable", "reported unsolvable, but a solution of cost " + to_string(ref.optCost) + " exists");
		if (v.cls == "solved" && ref.v == UNSOLVABLE) return bad(v, "wrong-solved", "reported solved, but no solution exists");
		if (v.cls == "timeout") { long lim = s.args.empty() || argAfter(s, "-t").empty() ? 1800 : atol(argAfter(s, "-t").c_str()); bool jump = false; for (int i = 0; i < 4; i++) if (s.sim.jumpAt[i] >= 0) jump = true; if (!jump && o.sh.simSpanUs < (lim + 1) * 1000000) return bad(v, "early-timeout", "timeout after " + to_string(o.sh.simSpanUs) + " us of at least " + to_string(lim) + " s"); }
		return v; }});
	// ---------------------------------------------------------------- progression: optimality
	P.push_back({"E03", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.unitCost = false; if (r.chance(1, 2)) g.recursion = 0; solvableBias(r, g, s, 9, 10); envSwarm(r, s); if (r.chance(1, 3)) s.sim.randMode = r.below(5);
		vector<string> H{"zero", "rc2(filter;est=cost)", "rc2(filter;est=cost;taskcount=no)", "rc2(lmc;est=cost)", "rc2(lmc;est=cost;taskcount=no)", "cost"};
		static const vector<string> D{"zero", "rc2(lmc;est=distance;taskcount=no)", "rc2(filter;est=distance;taskcount=no)"}, X{"zero", "rc2(lmc;est=mixed;taskcount=no)", "rc2(lmc;est=mixed)", "rc2(filter;est=mixed;taskcount=no)"};
		int k = r.below(10), w = r.chance(1, 4) ? r.range(2, 4) : 1; s.opt["metric"] = k < 6 ? 1 : k < 8 ? 2 : 3; s.args = {"-H", r.pick(k < 6 ? H : k < 8 ? D : X), "-g", k < 6 ? "action" : k < 8 ? "path" : "mixed", "-S", to_string(r.below(100000)), "-t", "3"};
		if (w > 1) { s.args.push_back("-w"); s.args.push_back(to_string(w)); }
		if (r.chance(1, 4)) { s.args.push_back("-H"); s.args.push_back(r.pick(HEUR)); }
		for (const char *o : {"-T", "-Q", "--noLayers", "--noOrderPairs", "--noParallelSequences"}) if (r.chance(1, 6)) s.args.push_back(o);
		s.sim.clockStep = 100000; s.sim.allocBudget = 4000000; s.sim.byteBudget = 600000000;
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); v.inconclusive = v.cls != "solved"; if (v.cls != "solved") return v;
		int metric = max(1, (int)s.o("metric")), w = has(s, "-w") ? atoi(argAfter(s, "-w").c_str()) : 1; RefResult ref = metric == 1 ? refSolve(s.inst) : refSolve(withMetric(s.inst, metric)); int cost = 0; Plan p = parsePlan(o.out);
		if (!checkPlan(s.inst, p, &cost).empty()) { if (metric > 1) { v.inconclusive = true; return v; } cost = numAfter(o.out, "- Total costs of actions: "); }
		if (metric == 2) cost = p.prim.size() + p.dec.size(); if (metric == 3) cost += p.dec.size();
		v.nontrivial = ref.optKnown; if (ref.optKnown && ref.v == SOLVABLE && cost > w * ref.optCost) return bad(v, "suboptimal", "plan of cost " + to_string(cost) + ", optimum is " + to_string(ref.optCost) + (w > 1 ? ", weight " + to_string(w) : ""));
		return v; }});
	// ---------------------------------------------------------------- the search, step by step
	auto monV = [](const Scenario &s, Ctx &c, int a, int b, const char *pa, const char *pb) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); if (o.sh.probes[a]) c.probes.insert(pa); if (o.sh.probes[b]) c.probes.insert(pb);
		v.nontrivial = o.sh.probes[a] + o.sh.probes[b] > 0; v.inconclusive = !v.nontrivial;
		if (!strncmp(o.sh.note, "MON ", 4)) { string t = o.sh.note + 4; size_t k = t.find(' '); v.cls = "violation"; return bad(v, t.substr(0, k), t.substr(k + 1)); }
		return v; };
	P.push_back({"E21", [genProg](Rng &r, Scenario &s, int tier) { genProg(r, s, tier); s.opt["mon"] = MON_STEP; s.sim.allocBudget = 250000; },
		[monV](const Scenario &s, Ctx &c) { return monV(s, c, 4, 7, "steps compared", "dead ends solved"); }});
	P.push_back({"E22", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); int focus = r.below(3); if (focus < 2) { g.few = true; g.twins = r.chance(1, 2); g.order = r.chance(1, 4) ? 4 : 1; g.maxArity = r.range(2, 5); if (r.chance(1, 2)) g.maxCost = r.range(1, 2); }
		solvableBias(r, g, s, 1, 2); envSwarm(r, s, false); bool fin = !cyclic(s.inst); progArgs(r, s, true, fin); dropIncomplete(s); s.args.erase(remove(s.args.begin(), s.args.end(), string("-V")), s.args.end());
		s.opt["mon"] = MON_DUP; static const set<string> pathIndep{"zero", "rc2(filter;est=cost)", "rc2(lmc;est=cost)", "rc2(lmc;est=cost;taskcount=no)"};
		if (r.chance(1, 4)) s.args[1] = r.chance(1, 2) ? "rc2(lmc;est=cost)" : "zero"; bool seq = sequencesOf(s.inst) && (totallyOrdered(s.inst) || (focus != 1 && !has(s, "--noParallelSequences")));
		if (focus == 0 && r.chance(1, 2)) { s.args.erase(remove(s.args.begin(), s.args.end(), string("--suboptimal")), s.args.end()); s.args[3] = "action"; s.args[1] = r.chance(2, 3) ? "rc2(lmc;est=cost)" : "zero"; }
		if (focus == 1 && !has(s, "--noParallelSequences")) s.args.push_back("--noParallelSequences");
		if (focus < 2 && r.chance(1, 2)) {      // a goal that is never reached: the whole space is searched
			int f = s.inst.facts.size(); s.inst.facts.push_back("+never[]"); s.inst.vars.push_back({f, f}); s.inst.goal.push_back(f); static const vector<string> Z{"zero", "zero", "cost", "modDepth", "mixedModDepth"}; s.args[1] = r.pick(Z); }
		if (!seq && r.chance(1, focus == 1 ? 2 : 6)) { s.args.push_back("-O"); if (r.chance(1, 2)) for (const char *o : {"--noLayers", "--noOrderPairs"}) if (!has(s, o)) s.args.push_back(o); }      // still exact: networks are compared up to renaming
		if (has(s, "--suboptimal")) { if (seq) s.opt["gcost"] = 2; } else if (seq && r.chance(1, 2)) s.opt["gcost"] = 3; else if (argAfter(s, "-g") == "action" && pathIndep.count(s.args[1])) s.opt["gcost"] = 1; s.sim.clockStep = 100000; s.sim.allocBudget = 500000;
	}, [monV](const Scenario &s0, Ctx &c) {
		Scenario s = s0; bool seq = sequencesOf(s.inst) && (totallyOrdered(s.inst) || !has(s, "--noParallelSequences"));      // (a scenario may have been cut down)
		if (seq) s.args.erase(remove(s.args.begin(), s.args.end(), string("-O")), s.args.end()); else if (s.o("gcost") >= 2) s.opt["gcost"] = 0; if (s.o("gcost") == 2 && !has(s, "--suboptimal")) s.opt["gcost"] = 0;
		return monV(s, c, 9, 9, "nodes discarded", "nodes discarded"); }});
	P.push_back({"E23", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); if (r.chance(1, 2)) g.recursion = 0; solvableBias(r, g, s, 5, 6); envSwarm(r, s, false); progArgs(r, s, true, !cyclic(s.inst));
		static const vector<string> A{"rc2(filter;est=cost)", "rc2(filter;est=cost;taskcount=no)", "rc2(lmc;est=cost)", "rc2(lmc;est=cost;taskcount=no)"}, D{"rc2(lmc;est=distance;taskcount=no)", "rc2(filter;est=distance;taskcount=no)"}, X{"rc2(lmc;est=mixed;taskcount=no)", "rc2(lmc;est=mixed)", "rc2(filter;est=mixed;taskcount=no)"};
		int k = r.below(10); if (k < 6) { s.opt["adm"] = 1; s.args[1] = r.pick(A); } else if (k < 7) { s.opt["adm"] = 2; s.args[1] = r.pick(D); } else if (k < 8) { s.opt["adm"] = 3; s.args[1] = r.pick(X); }
		s.opt["mon"] = MON_HEUR; s.sim.clockStep = 100000; s.sim.allocBudget = 120000;
	}, [monV](const Scenario &s, Ctx &c) { return monV(s, c, 6, 10, "dead ends solved", "estimates compared"); }});
	// ---------------------------------------------------------------- reproducibility
	P.push_back({"E05", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); int k = r.below(16); s.sim.clockStep = 100; s.sim.allocBudget = k < 11 ? 1500000 : 500000; s.sim.byteBudget = 400000000; s.sat.maxSolves = 30;
		if (k < 11) { g.recursion = r.chance(3, 4) ? 0 : -1; solvableBias(r, g, s); progArgs(r, s, false, !cyclic(s.inst)); }
		else if (k < 13) { g.order = 0; g.maxArity = 2; solvableBias(r, g, s); s.args = {"-b"}; }
		else if (k < 14) { g.recursion = 0; solvableBias(r, g, s, 1, 1); s.args = {"-s", "-P", r.chance(1, 2) ? "ff" : "none"}; s.sat.phaseMode = r.below(12); }
		else { g.recursion = 0; solvableBias(r, g, s, 1, 1); static const vector<string> T{"push", "parallelseq", "to", "postrips", "pocond"}; s.args = {"-2", "--iterate", "--downward", "./fd", "--transtype", r.pick(T)}; }
		envSwarm(r, s); s.sim.clockStep = r.range(0, 1000);
	}, [](const Scenario &s, Ctx &c) {
		Scenario b = s; SimCfg d; d.allocBudget = s.sim.allocBudget; d.byteBudget = s.sim.byteBudget; d.randMode = s.sim.randMode; b.sim = d; RunOut o = c.run(b), p = c.run(s);
		bool prog = has(s, "-H"); Verdict v = V(prog ? "progression" : s.args[0]); if (o.sh.budgetHit || p.sh.budgetHit) { v.inconclusive = true; return v; }
		v.nontrivial = true; string x = normal(o.out), y = normal(p.out);
		if (o.code != p.code || o.sig != p.sig) return bad(v, "differs-exit", "benign environment: exit " + to_string(o.code) + "/" + to_string(o.sig) + ", other environment: " + to_string(p.code) + "/" + to_string(p.sig));
		if (x != y) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; return bad(v, "differs", "results differ: ..." + x.substr(i > 30 ? i - 30 : 0, 80) + " versus ..." + y.substr(i > 30 ? i - 30 : 0, 80)); }
		return v; }});
	// ---------------------------------------------------------------- translation with a peer that does its job
	P.push_back({"E09", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.maxVars = min(g.maxVars, 4); g.maxArity = r.range(1, 4); g.bigStates = false; g.recursion = r.chance(3, 4) ? 0 : 1; solvableBias(r, g, s, 99, 100); envSwarm(r, s);
		static const vector<string> T{"push", "parallelseq", "to", "postrips", "pocond"};
		s.args = {"-2", "--iterate", "--downward", "./fd", "--transtype", r.pick(T)}; if (r.chance(1, 3)) s.args.push_back("--realCosts"); bool tot = totallyOrdered(s.inst); const string &tt = s.args[5]; if (r.chance(1, 3) && (tt != "to" || tot) && tt != "parallelseq") s.args.push_back("--forceTransType");
		if (r.chance(1, tt == "parallelseq" ? 2 : 3)) { s.args.push_back("--pgb"); s.args.push_back(to_string(r.chance(1, 2) ? r.range(1, 2) : r.range(1, 6))); }
		if (r.chance(1, 5)) { s.args.push_back("--pgbsteps"); s.args.push_back(to_string(r.range(2, 5))); }
		if (r.chance(1, 8)) { s.args.push_back("--downwardConf"); s.args.push_back(r.chance(1, 2) ? "lazy-cea()" : "--search astar(blind())"); }
		if (r.chance(1, 8)) { s.args.push_back("--sasfile"); s.args.push_back(r.chance(1, 2) ? "other.sas" : "p"); }
		s.peer.order = r.below(3); s.peer.planDot1 = r.chance(1, 4); s.peer.stale = r.below(4); s.peer.nodeCap = 30000; s.sim.allocBudget = 60000 + 1500 * s.inst.actions.size();
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); bool capped = o.sh.probes[3] > 0;
		if (o.sh.budgetHit) {      // still no plan, although the bound allows every decomposition?
			v.cls = "budget"; v.inconclusive = true; long need = largestNetwork(s.inst); long par = 1; vector<long> B; istringstream in(o.out); string l;
			while (getline(in, l)) { size_t p = l.find("new progressionbound:"); if (p == string::npos) continue; istringstream x(l.substr(p + 21)); long b = LONG_MAX, y; long n = 0; while (x >> y) { b = min(b, y); n++; } par = max(par, n); B.push_back(b); }
			if (B.size() < 3) return v; int k = 0; for (long b : B) if (b >= need) k++; if (need < LONG_MAX && (long)B.size() >= need * par + 3) k = 2;      // or after enough rounds
			if (k >= 2 && !capped && refSolve(s.inst).v == SOLVABLE) return bad(v, "no-plan", "no plan in " + to_string(B.size()) + " rounds up to progression bound " + to_string(B[B.size() - 2]) + ", no task network has more than " + to_string(need) + " tasks");
			v.inconclusive = k < 2; if (k >= 2) { v.cls = "no plan (none exists)"; v.nontrivial = true; } return v; }
		if (o.sig || o.code == 96) return bad(v, "crash", v.cls + " " + o.sh.note);
		if (strstr(o.sh.note, "peer cannot read") || strstr(o.sh.note, "unexpected command")) return bad(v, "bad-sas-file", o.sh.note);
		if (strstr(o.sh.note, "false mutex")) return bad(v, "false-mutex", o.sh.note); if (o.sh.probes[13]) c.probes.insert("further mutex groups");
		Plan p = parsePlan(o.out); if (p.present) { v.cls = "solved"; v.nontrivial = true; int cost; string e = checkPlan(s.inst, p, &cost); if (!e.empty()) return bad(v, "invalid-plan", e);
			if (has(s, "--realCosts") && (long)o.sh.probes[14] != 1 + cost) return bad(v, "wrong-cost", "the peer's plan costs " + to_string((long)o.sh.probes[14] - 1) + " in the SAS+ file, the HTN plan " + to_string(cost)); return v; }
		v.inconclusive = true; if (o.code == 0) return bad(v, "silent-success", "exit 0 without a plan");
		RefResult ref = refSolve(s.inst); v.cls = "gave-up"; if (capped) { v.cls = "capped"; return v; }
		if (ref.v == SOLVABLE) { v.nontrivial = true; return bad(v, "no-plan", "gave up although a solution of cost " + to_string(ref.optCost) + " exists"); }
		v.inconclusive = ref.v != UNSOLVABLE; v.nontrivial = !v.inconclusive; return v; }});
	// ---------------------------------------------------------------- SAT: soundness for every model the solver may return
	auto satArgs = [](Rng &r, Scenario &s) {
		static const vector<string> PR{"none", "ff", "h2"}; s.args = {"-s", "-P", r.pick(PR)};
		for (const char *o : {"-B", "-M", "-m", "--orderOutput"}) if (r.chance(1, 4)) s.args.push_back(o);
		s.sat.phaseMode = r.below(18); s.sat.orderMode = r.below(2); s.sat.savePhase = r.below(2); s.sat.maxSolves = 80; s.sim.allocBudget = 600000;
	};
	// looking for cheaper plans: every plan keeps to the announced bound, and a bound that allows a plan of the decompositions' depth is not refused
	// (costs are the logarithmic ones that the planner counts with; the first step rounds them to thousands, so it is judged only from the first cheaper plan on)
	auto costBounds = [](const Inst &I, const string &out, bool refuse) -> string {
		istringstream in(out); string l; long K = -1, D = 0; int n = 0; bool fine = false; RefResult ref; bool have = false;
		while (getline(in, l)) {
			size_t p = l.find("Generating formula for depth "); if (p != string::npos) { size_t q = l.find(" and cost "); K = q == string::npos ? -1 : atol(l.c_str() + q + 10); D = atol(l.c_str() + p + 29); continue; }
			p = l.find("Total cost of solution: "); size_t t = l.find("true cost: "); if (p != string::npos && t != string::npos) { n++; long a = atol(l.c_str() + p + 24); if (K >= 0 && fine && a > K) return "plan of cost " + to_string(a) + " although it should cost at most " + to_string(K); if (n == 2 && a < 1000) fine = true; K = -1; continue; }
			if (refuse && K >= 0 && fine && D > I.nAbs + 1 && l.find("UNSAT") != string::npos) { if (!have) { Inst J = I; for (auto &x : J.actions) if (x.cost) x.cost = 1 + log(x.cost); ref = refSolve(J); have = true; } if (ref.optKnown && ref.v == SOLVABLE && ref.optCost <= K) return "no plan of cost at most " + to_string(K) + " at depth " + to_string(D) + ", but the optimum is " + to_string(ref.optCost); }
		}
		return ""; };
	P.push_back({"E11", [satArgs](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.maxArity = r.range(1, 4); g.bigStates = false; if (r.chance(2, 3)) g.recursion = 0; solvableBias(r, g, s, 19, 20); envSwarm(r, s); satArgs(r, s);
		if (r.chance(1, 3)) s.args.push_back("-o"); if (r.chance(1, 8)) { s.sat.intAt = r.below(3); s.sat.intLen = 1000000; }
	}, [costBounds](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); vector<Plan> ps = parseAllPlans(o.out); if (o.sig == 6 && o.sh.oom) { v.inconclusive = true; v.cls = "out of memory"; } else if (o.sig || o.code == 96) return bad(v, "crash", v.cls + " " + o.sh.note);
		if (o.sh.note[0]) return bad(v, "solver-misuse", o.sh.note);
		for (size_t i = 0; i < ps.size(); i++) { if (!ps[i].wellFormed && i + 1 == ps.size() && o.sh.budgetHit) break; int cost; string e = checkPlan(s.inst, ps[i], &cost); if (!e.empty()) return bad(v, "invalid-plan", e); size_t q = 0; for (size_t k = 0; k <= i && q != string::npos; k++) { q = o.out.find("Total cost of solution: ", q); if (q != string::npos) q += 24; } if (q == string::npos) break; size_t t = o.out.find("true cost: ", q); if (t == string::npos) break; if (isdigit((unsigned char)o.out[t + 11]) && o.out.find('\n', t) != string::npos && atol(o.out.c_str() + t + 11) != cost) return bad(v, "wrong-cost", "printed cost " + to_string(atol(o.out.c_str() + t + 11)) + ", the plan costs " + to_string(cost)); }
		{ string e = costBounds(s.inst, o.out, false); if (!e.empty()) return bad(v, "over-bound", e); }
		v.nontrivial = !ps.empty(); if (!ps.empty()) { v.cls = ps.size() > 1 ? "improved" : "solved"; return v; }
		v.inconclusive = true; if (o.sh.fired[FK_SOLVER_INT]) { v.cls = "interrupted"; v.nontrivial = true; if (o.code == 0) return bad(v, "silent-interrupt", "exit 0 without a plan after the solver was interrupted"); return v; }
		if (o.sh.budgetHit || o.sh.oom) { v.cls = "budget"; return v; }
		if (o.has("Edge case")) { v.cls = "edge-case"; return v; }
		if (o.code == 0) return bad(v, "silent", "exit 0 without a plan"); return v; }});
	P.push_back({"E12", [satArgs](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.maxArity = r.range(1, 4); g.bigStates = false; g.recursion = 0; solvableBias(r, g, s, 99, 100); envSwarm(r, s, false); satArgs(r, s); if (r.chance(1, 4)) s.args.push_back("-o");
	}, [costBounds](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); RefResult ref = refSolve(s.inst); bool cyc = cyclic(s.inst); v.inconclusive = true; if (o.sig || o.code == 96) return v;
		int depth = 0; size_t p = 0; while ((p = o.out.find("Generating formula for depth ", p)) != string::npos) { p += 29; depth = max(depth, atoi(o.out.c_str() + p)); }
		bool plan = parsePlan(o.out).present; v.cls = plan ? "solved" : "none"; if (ref.v == UNKNOWN || cyc) return v;
		int maxDepth = s.inst.nAbs + 1;
		if (ref.v == SOLVABLE) { if (plan) { v.nontrivial = true; v.inconclusive = false; } else if (depth > maxDepth) return bad(v, "no-plan", "still no plan at depth " + to_string(depth) + ", every decomposition has depth at most " + to_string(maxDepth)); else if (!o.sh.budgetHit && !o.has("Edge case")) return bad(v, "no-plan", "ended without a plan at depth " + to_string(depth)); }
		else if (plan) return bad(v, "wrong-solved", "plan printed for an unsolvable problem"); else { v.nontrivial = true; v.inconclusive = false; }
		if (plan && has(s, "-o")) { string e = costBounds(s.inst, o.out, true); if (!e.empty()) return bad(v, "missed-cheaper", e); }
		return v; }});
	// ---------------------------------------------------------------- symbolic search under every table size, collection and reordering schedule
	P.push_back({"E13", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.maxArity = 2; g.order = 0; g.recursion = r.chance(1, 2) ? 0 : r.range(1, 2); g.bigStates = false; solvableBias(r, g, s, 5, 6); envSwarm(r, s);
		s.args = {"-b"}; static const unsigned SL[] = {2, 16, 64, 256, 1024}, CA[] = {2, 64, 256, 4096}; s.bdd.slots = SL[r.below(5)]; s.bdd.cache = CA[r.below(4)]; if (r.chance(1, 3)) { static const int RM[] = {4, 5, 6, 8, 10, 12, 14, 16, 17}; s.bdd.reorder = RM[r.below(9)]; } if (r.chance(1, 2)) s.bdd.chunk = r.chance(1, 2) ? r.range(3, 40) : r.range(41, 400);
		s.sim.allocBudget = 1000000; s.sim.byteBudget = 400000000;
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); if (o.sh.budgetHit || o.watchdog) { v.inconclusive = true; v.cls = "budget"; if (!parsePlan(o.out).present) return v; }
		if (o.sig || o.code == 96) return bad(v, "crash", v.cls + " " + o.sh.note);
		Plan p = parsePlan(o.out); RefResult ref = refSolve(s.inst); bool uns = o.has("nsolvable");
		if (p.present) { v.cls = "solved"; int cost; string e = checkPlan(s.inst, p, &cost); if (!e.empty()) return bad(v, "invalid-plan", e); v.nontrivial = true; long sc = numAfter(o.out, "Goal reached! Length="); if (sc != cost) return bad(v, "wrong-cost", "search cost " + to_string(sc) + ", plan costs " + to_string(cost)); if (ref.optKnown && cost != ref.optCost) return bad(v, "suboptimal", "plan of cost " + to_string(cost) + ", optimum is " + to_string(ref.optCost)); return v; }
		if (uns) { v.cls = "unsolvable"; v.nontrivial = ref.v != UNKNOWN; if (ref.v == SOLVABLE) return bad(v, "wrong-unsolvable", "reported unsolvable, but a solution of cost " + to_string(ref.optCost) + " exists"); return v; }
		return bad(v, "no-verdict", "neither a plan nor a verdict; exit " + to_string(o.code)); }});
	// ---------------------------------------------------------------- the time limit
	P.push_back({"E06", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.recursion = r.chance(2, 3) ? r.range(1, 2) : -1; if (r.chance(1, 2)) g.maxArity = r.range(3, 6); g.maxMethods = r.range(2, 4); if (r.chance(1, 2)) g.order = 0; bool never = r.chance(4, 5);
		for (int k = 0; k < 30; k++) { s.inst = genInst(r, g); if (r.chance(2, 3)) for (auto &a : s.inst.actions) a.pre.clear(); if (never) { int f = s.inst.facts.size(); s.inst.facts.push_back("+never[]"); s.inst.vars.push_back({f, f}); s.inst.goal.push_back(f); } if (refSolve(s.inst, 4000).v == UNKNOWN) break; }      // (a goal that is never reached)
		if (r.chance(3, 4)) {      // a task that can grow for ever
			Inst &I = s.inst; int x = I.tasks.size(), a = r.below(I.actions.size()); I.actions[a].pre.clear(); I.tasks.push_back("grow[]"); I.nAbs++; int how = r.below(3); Method G; G.name = "grow_more[]"; G.task = x; G.sub = {x, a}; if (how == 0) G.ord = {{0, 1}}; if (r.chance(1, 4)) { G.sub.push_back(r.below(I.actions.size())); if (how == 0) G.ord.push_back({1, 2}); }
			Method H; H.name = "grow_end[]"; H.task = x; H.sub = {(int)r.below(I.actions.size())}; I.methods.push_back(G); if (r.chance(4, 5)) I.methods.push_back(H);
			for (auto &m : I.methods) if (m.task == I.init) { int k = m.sub.size(), w = r.below(3); m.sub.push_back(x); for (int i = 0; i < k; i++) if (w == 0) m.ord.push_back({k, i}); else if (w == 1) m.ord.push_back({i, k}); } }
		envSwarm(r, s); progArgs(r, s, true, !cyclic(s.inst));
		static const vector<string> Z{"zero", "zero", "cost", "modDepth", "mixedModDepth", "rc2(filter)", "rc2(ff)", "rc2(lmc)"}; s.args[1] = Z[r.below(never ? 5 : 8)]; for (size_t i = 2; never && i < s.args.size(); i++) if (s.args[i - 1] == "-H") s.args[i] = Z[r.below(5)];
		s.args.erase(remove(s.args.begin(), s.args.end(), string("-V")), s.args.end()); if (r.chance(1, 3)) s.args.push_back("-V");
		static const int ST[] = {20000, 100000, 300000, 700000, 2000000}; s.sim.clockStep = ST[r.below(5)]; if (r.chance(1, 2)) { s.sim.jumpAt[0] = r.below(30); s.sim.jumpBy[0] = (int64_t)r.range(2, 4000) * 1000000LL; }
		s.sim.limitUs = (atol(argAfter(s, "-t").c_str()) + 1) * 1000000L + 2000; s.sim.allocBudget = 2500000; s.sim.byteBudget = 800000000;
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); long after = o.sh.probes[11]; v.nontrivial = v.cls == "timeout"; v.inconclusive = !v.nontrivial; if (after) c.probes.insert("nodes after the limit"); if (v.nontrivial && o.sh.probes[12] > 12000) c.probes.insert("several checks before the limit");
		if (o.sh.budgetHit && o.sh.probes[12] == 0 && (long)o.sh.allocs >= s.sim.allocBudget) return bad(v, "never-starts", "no search node after " + to_string(o.sh.allocs) + " allocations");
		if (after > 5600) return bad(v, "runs-on", to_string(after) + " search nodes were generated after the time limit had passed");
		if (v.cls == "hang") return bad(v, "hang", "no end within the CPU bound");
		return v; }});
	// ---------------------------------------------------------------- no memory
	P.push_back({"E07", [](Rng &r, Scenario &s, int tier) {
		int k = r.below(12), mode = k < 5 ? 0 : k < 8 ? 1 : k < 10 ? 2 : 3; anyAlgorithm(r, s, tier, mode, true);
		s.opt["failAt"] = r.range(0, 10000); int f = r.below(5); s.sim.allocFailLen = f == 0 ? -1 : f < 4 ? 1 : r.range(2, 40); if (mode == 1 && r.chance(1, 2)) s.bdd.chunk = r.chance(1, 2) ? r.range(3, 40) : r.range(41, 400); if (mode == 1 && r.chance(1, 2)) { s.bdd.maxMem = 1L << r.range(16, 24); if (r.chance(1, 2)) s.opt.erase("failAt"); }
		if (r.chance(1, 5)) { s.opt.erase("failAt"); s.opt["capAt"] = r.range(100, 9999); }
		else if (r.chance(1, 2) && s.opt.count("failAt")) { s.opt.erase("failAt"); s.opt["siteAt"] = max(r.range(0, 9999), r.range(0, 9999)); s.opt["sites"] = r.range(1, 6); s.opt["occAt"] = r.chance(1, 4) ? 0 : r.range(0, 9999); if (r.chance(1, 2)) { s.opt["late"] = 1; if (mode == 0) s.opt["sites"] = r.range(4, 16); } }      // the same chance for every place in the code that allocates
	}, [](const Scenario &s0, Ctx &c) {
		auto judge = [&](const Scenario &s) {
			RunOut o = c.run(s); Verdict v = V(clsOf(o)); bool hit = o.sh.fired[FK_ALLOC] || o.sh.oom || s.bdd.maxMem; v.nontrivial = hit; v.inconclusive = !hit; if (v.cls == "exit0" || v.cls == "silent") v.cls = "ended";
			if (v.cls == "hang") return bad(v, "hang", "no end within the CPU bound");
			return noLie(s, o, v); };
		Scenario s = s0; if (s.opt.count("siteAt")) {
			Scenario b = s0; b.sim.allocFailAt = -1; b.sim.siteCount = 1; RunOut q = c.run(b); int n = q.sh.siteN; Verdict v;
			for (int j = 0; j < max(1, (int)s.o("sites")); j++) {      // some places, one after the other
				if (n > 0) { int k = s.o("late") ? max(0, n - 1 - (int)(s.o("siteAt") + 11 * j) % 64) : (int)(((long)n * s.o("siteAt") / 10000 + j * (n / 7 + 1)) % n); s.sim.allocFailSite = (long)q.sh.siteAddr[k]; s.sim.allocFailOcc = (long)q.sh.siteCnt[k] * s.o("occAt") / 10000; }
				Verdict w = judge(s); if (!w.kind.empty()) return w; if (!j || !w.inconclusive) v = w; }
			return v; }
		if (s.opt.count("failAt") || s.opt.count("capAt")) {      // where the failure strikes is relative to the run without it
			Scenario b = s0; b.sim.allocFailAt = -1; RunOut q = c.run(b); if (s.opt.count("failAt")) s.sim.allocFailAt = (long)(q.sh.allocs * s.o("failAt") / 10000); else s.sim.memCap = (long)(q.sh.peakBytes * (unsigned long)s.o("capAt") / 10000); }
		return judge(s); }});
	// ---------------------------------------------------------------- translation with a peer that fails
	P.push_back({"E10", [](Rng &r, Scenario &s, int tier) {
		anyAlgorithm(r, s, tier, 3, false); s.peer.faultAt = r.chance(1, 2) ? 0 : r.below(4); s.peer.kind = r.below(6); static const int C[] = {1, 2, 10, 11, 12, 20, 21, 22, 23, 24, 30, 31, 32, 33, 34, 35, 36, 37, 255}; s.peer.code = s.peer.kind == 1 ? (r.chance(1, 2) ? 9 : 11) : C[r.below(19)]; s.peer.cut = r.chance(1, 8) ? 0 : r.below(400); s.peer.stale = r.below(4); s.peer.planDot1 = r.chance(1, 4); if (r.chance(1, 6)) { s.sim.readEioAt = r.range(1, 12); if (r.chance(2, 3)) { s.peer.faultAt = -1; s.sim.readShort = 0; } }
		if (r.chance(1, 4)) { s.args.push_back("--pgb"); s.args.push_back(to_string(r.range(1, 6))); }
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); bool hit = false; for (int k : {FK_READ_EIO, FK_PEER_CRASH, FK_PEER_NOPLAN, FK_PEER_TORN, FK_PEER_STALE, FK_PEER_MISSING}) if (o.sh.fired[k]) hit = true; v.nontrivial = hit; v.inconclusive = !hit; if (v.cls == "silent") v.cls = "ended";
		if (v.cls == "hang") return bad(v, "hang", "no end within the CPU bound");
		if (o.sig || o.code == 96) return bad(v, "crash", v.cls + " " + o.sh.note);
		return noLie(s, o, v); }});
	// ---------------------------------------------------------------- a problem file that ends early
	P.push_back({"E08", [](Rng &r, Scenario &s, int tier) {
		int mode = r.below(4); anyAlgorithm(r, s, tier, mode, true); untidy(s.inst); addKnownMutexes(s.inst); string t = toSas(s.inst); while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
		s.viaStdin = r.chance(1, 3); int k = r.below(s.viaStdin ? 3 : 4);
		if (k < 3) { size_t cut = k == 0 ? r.below(t.size()) : k == 1 ? t.size() - 1 - r.below(min<size_t>(t.size(), 60)) : 0; if (k == 2) { vector<size_t> nl; for (size_t i = 0; i + 1 < t.size(); i++) if (t[i] == '\n') nl.push_back(i + r.below(2)); cut = r.pick(nl); } if (cut >= t.size()) cut = t.size() - 1; s.rawInput = true; s.input = t.substr(0, cut); }
		else { s.sim.readShort = r.range(1, 60); s.sim.readEioAt = r.below(1 + t.size() / s.sim.readShort); }
		if (r.chance(1, 3)) { s.sim.readEintrAt = r.below(4); s.sim.readEintrLen = 1; } if (r.chance(1, 8)) { s.args = {"--writeInputToHDDL"}; s.viaStdin = false; }
		s.sim.allocBudget = 300000; s.sim.byteBudget = 200000000;
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); bool hit = s.rawInput || o.sh.fired[FK_READ_EIO] || o.sh.fired[FK_READ_EINTR]; v.nontrivial = hit; v.inconclusive = !hit; if (!hit) return v; if (s.rawInput) c.probes.insert("truncated"); if (o.sh.fired[FK_READ_EIO]) c.probes.insert("read error"); if (s.viaStdin) c.probes.insert("standard input");
		if (v.cls == "hang" || o.sh.budgetHit || o.watchdog) return bad(v, "hang", "an incomplete problem file is read for ever");
		if (o.sig || o.code == 96) return bad(v, "crash", v.cls);
		if (o.code == 0) return bad(v, "accepted", "exit 0 with an incomplete problem file");
		if (!parseAllPlans(o.out).empty() || o.has("Status:")) return bad(v, "accepted", "plans for an incomplete problem file");
		return v; }});
	// ---------------------------------------------------------------- everything that is written
	P.push_back({"E14", [](Rng &r, Scenario &s, int tier) {
		int what = r.below(6);      // 0-2: HDDL, 3: SAS+ only, 4-5: a plan on the standard output
		if (what < 3) { GenCfg g = anyGen(r, tier); g.maxArity = r.range(1, 6); s.inst = genInst(r, g); Inst &I = s.inst; if (r.chance(3, 4)) for (size_t a = 0; a < I.actions.size(); a++) if (r.chance(1, 3)) { I.actions[a].pre.clear(); I.actions[a].add.clear(); I.actions[a].del.clear(); I.tasks[a] = "__noop_" + to_string(a) + "[]"; } envSwarm(r, s); s.args = {"--writeInputToHDDL"}; s.opt["what"] = 0; }
		else if (what == 3) { anyAlgorithm(r, s, tier, 3, false); s.args.erase(remove(s.args.begin(), s.args.end(), string("--iterate")), s.args.end()); s.args.push_back("--onlyGenerate"); s.opt["what"] = 1; }
		else { anyAlgorithm(r, s, tier, r.below(4), true); s.opt["what"] = 2; s.opt["outAt"] = r.chance(1, 2) ? r.range(9000, 10000) : r.below(10001); return; }
		s.sim.writeShort = r.chance(1, 3) ? r.range(1, 700) : 0; if (r.chance(1, 4)) s.sim.writeEintrAt = r.below(6); if (r.chance(1, 3)) { int k = r.below(3); if (k == 0) s.sim.writeEioAt = r.below(what == 3 ? 20 : 8); else s.opt["writeAt"] = r.below(10001); }
	}, [](const Scenario &s0, Ctx &c) {
		Scenario s = s0; int what = s.o("what"); RunOut base; if (what == 2 || s.opt.count("writeAt")) { Scenario b = s0; b.sim.writeEioAt = -1; b.sim.writeEintrAt = -1; b.sim.writeShort = 0; base = c.run(b); if (what == 2) s.opt["outCap"] = base.out.size() * s.o("outAt") / 10000; else s.sim.writeCap = base.sh.bytesWritten * s.o("writeAt") / 10000; }
		if (what == 2 && (base.code || base.sig || base.budget())) { Verdict v = V("no plan"); v.inconclusive = true; return v; }
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); v.nontrivial = true; if (v.cls == "silent") v.cls = "written"; bool flt = o.sh.fired[FK_WRITE_EIO] || o.sh.fired[FK_WRITE_ENOSPC];
		if (v.cls == "hang") return bad(v, "hang", "no end within the CPU bound"); if (o.sh.budgetHit || o.watchdog) { v.inconclusive = true; return v; }
		if (o.sig || o.code == 96) return bad(v, "crash", v.cls);
		if (what == 2) { if (o.out.size() < base.out.size()) { c.probes.insert("output cut"); if (o.code == 0) return bad(v, "lost-output", "exit 0 although only " + to_string(o.out.size()) + " of " + to_string(base.out.size()) + " bytes were written"); } return v; }
		if (o.code) { if (flt) { c.probes.insert("write error"); return v; } if (what == 1 && o.has("oo large")) { v.inconclusive = true; return v; } return bad(v, "failed", "exit " + to_string(o.code) + " without a write error"); }
		if (what == 0) { string e = checkHddl(s.inst, o.files["p.sas.d.hddl"], o.files["p.sas.p.hddl"]); if (!e.empty()) return bad(v, flt ? "torn-export" : "wrong-export", e); for (auto &t : s.inst.tasks) if (t.compare(0, 6, "__noop") == 0) c.probes.insert("no-ops"); return v; }
		string e = checkSasFile(o.files["output.sas"]); if (!e.empty()) return bad(v, flt ? "torn-export" : "wrong-export", "SAS+ file: " + e); return v; }});
	// ---------------------------------------------------------------- interactive planning
	P.push_back({"E15", [](Rng &r, Scenario &s, int tier) {
		GenCfg g = anyGen(r, tier); g.bigStates = false; g.maxMethods = r.range(2, 4); solvableBias(r, g, s, 1, 2); if (r.chance(2, 3)) for (auto &a : s.inst.actions) if (r.chance(2, 3)) a.pre.clear(); envSwarm(r, s); s.args = {"-I"}; s.hasStdin = true; int n = r.chance(1, 5) ? r.below(3) : r.range(3, 60); static const vector<string> W{"x", "--", "99", "1000000000000000000000", "-5", "0x1", "", "-1", "-2", "3.5"}; bool sloppy = r.chance(1, 2);
		for (int i = 0; i < n; i++) s.stdinText += (sloppy && r.chance(1, 8) ? r.pick(W) : to_string(r.chance(1, 2) ? r.below(2) : r.below(5))) + (r.chance(1, 9) ? " " : "\n");
		s.sim.allocBudget = 300000;
	}, [](const Scenario &s, Ctx &c) {
		RunOut o = c.run(s); Verdict v = V(clsOf(o)); if (v.cls == "silent") v.cls = "ended"; bool some = false;
		if (v.cls == "hang") return bad(v, "hang", "no end within the CPU bound");
		if (o.sh.budgetHit || o.watchdog) { istringstream u(s.stdinText); string e = checkDialog(s.inst, o.out, s.stdinText, c, some); v.inconclusive = e.empty() || e.find("ends within") != string::npos; if (!v.inconclusive) return bad(v, "dialogue", e); return v; }
		if (o.sig || o.code == 96) return bad(v, "crash", v.cls); if (o.code) return bad(v, "crash", "exit " + to_string(o.code));
		string e = checkDialog(s.inst, o.out, s.stdinText, c, some); v.nontrivial = some; if (!e.empty()) return bad(v, "dialogue", e); return v; }});
	// Conditional effects: the planner may refuse such a problem, but what it says about it must be right.
	for (auto &p : P) if (p.id == "E01" || p.id == "E02" || p.id == "E09" || p.id == "E11" || p.id == "E13") {
		auto gen = p.gen; auto check = p.check;
		p.gen = [gen](Rng &r, Scenario &s, int tier) { gen(r, s, tier); addConditional(s.inst); };
		p.check = [check](const Scenario &s, Ctx &c) {
			if (!conditional(s.inst)) return check(s, c);
			RunOut o = c.run(s); Verdict v = V(clsOf(o)); Plan p = parsePlan(o.out); v.inconclusive = v.cls == "budget" || v.cls == "timeout" || v.cls == "interrupted";
			if (p.present) { string e = checkPlan(s.inst, p); if (!e.empty()) return bad(v, "invalid-plan", "conditional effects: " + e); v.nontrivial = true; }
			if (v.cls == "unsolvable" && refSolve(s.inst).v == SOLVABLE) return bad(v, "wrong-unsolvable", "conditional effects: reported unsolvable, but a solution exists");
			if (o.sig) return bad(v, "crash", "conditional effects: " + v.cls);
			if (o.code == 1 && !p.present) v.cls = "refused";
			return v; }; }
	return P;
}
}
