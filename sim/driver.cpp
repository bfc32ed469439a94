#include "driver.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/personality.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace std;
namespace vsim {
RunOut Ctx::run(const Scenario &s) { RunOut o = runEngine(s); add(o); return o; }
void Ctx::add(const RunOut &o) {
	runs++; simUs += o.sh.simSpanUs; events += o.sh.events; for (int i = 0; i < FK_MAX; i++) fired[i] += o.sh.fired[i];
	uint64_t h = o.hash(); hash = fnv(&h, 8, hash); trace = fnv(&o.sh.traceHash, 8, trace ? trace : 1469598103934665603ULL);
}
bool instanceOk(const Inst &I) {
	if (I.actions.empty() || I.methods.empty()) return false;
	// every task reachable from the initial one, methods have subtasks
	int n = I.tasks.size(); vector<char> r(n, 0); vector<int> st{I.init}; r[I.init] = 1;
	while (!st.empty()) { int t = st.back(); st.pop_back(); for (auto &m : I.methods) if (m.task == t) for (int s : m.sub) if (!r[s]) { r[s] = 1; st.push_back(s); } }
	for (char c : r) if (!c) return false;
	for (auto &m : I.methods) if (m.sub.empty() || !I.isAbs(m.task)) return false;
	if (!I.isAbs(I.init)) return false;
	set<vector<bool>> rs; if (!reachableStates(I, rs, 20000)) return true;   // too many states to look at: trust the generator
	for (auto &s : rs) for (auto &v : I.vars) if (v.last > v.first) { int c = 0; for (int f = v.first; f <= v.last; f++) c += s[f]; if (c != 1) return false; }
	return true;
}

// ------------------------------------------------------------- minimisation
// Candidate edits, simplest first; every candidate must stay a well-formed scenario.
static void candidates(const Scenario &s, vector<Scenario> &C) {
	auto add = [&](Scenario t) { if (t.hasInst && !t.rawInput) dropFalseMutexes(t.inst); if (!t.hasInst || instanceOk(t.inst)) C.push_back(t); };
	const SimCfg d; 
	// environment knobs back to default
#define K(F) if (s.sim.F != d.F) { Scenario t = s; t.sim.F = d.F; add(t); }
	K(heapPolicy) K(heapFill) K(clockMode) K(randMode) K(readShort) K(writeShort) K(readEintrAt) K(writeEintrAt) K(readEioAt) K(writeEioAt) K(writeCap) K(allocFailAt) K(clockStep)
#undef K
	for (int i = 0; i < 4; i++) if (s.sim.jumpAt[i] >= 0) { Scenario t = s; t.sim.jumpAt[i] = -1; t.sim.jumpBy[i] = 0; add(t); }
	{ SatCfg e; if (s.sat.phaseMode != e.phaseMode || s.sat.orderMode != e.orderMode || s.sat.savePhase != e.savePhase || s.sat.intAt != e.intAt) { Scenario t = s; t.sat = e; add(t); } }
	{ PeerCfg e; if (s.peer.order != e.order) { Scenario t = s; t.peer.order = 0; add(t); } if (s.peer.planDot1) { Scenario t = s; t.peer.planDot1 = 0; add(t); } if (s.peer.faultAt >= 0) { Scenario t = s; t.peer.faultAt = -1; add(t); } if (s.peer.stale) { Scenario t = s; t.peer.stale = 0; add(t); } }
	{ BddCfg e; if (s.bdd.reorder != e.reorder || s.bdd.maxMem != e.maxMem || s.bdd.chunk != e.chunk || s.bdd.slots != e.slots || s.bdd.cache != e.cache) { Scenario t = s; t.bdd = e; add(t); } }
	// arguments (never the algorithm selectors and value pairs that must stay together)
	for (size_t i = 0; i < s.args.size(); i++) {
		const string &a = s.args[i]; if (a[0] != '-') continue;
		static const set<string> keep{"-s", "-b", "-2", "-I", "-H", "-g", "-t", "--writeInputToHDDL", "--iterate", "--downward"}; if (keep.count(a) && a != "-g") continue;
		Scenario t = s; bool val = i + 1 < s.args.size() && s.args[i + 1][0] != '-';
		if (a == "-g") continue;
		t.args.erase(t.args.begin() + i, t.args.begin() + i + (val ? 2 : 1)); add(t);
	}
	if (!s.hasInst || s.rawInput) return;
	const Inst &I = s.inst;
	for (auto G : {&Inst::strictMutex, &Inst::mutex, &Inst::invariants}) for (size_t k = 0; k < (I.*G).size(); k++) { Scenario t = s; (t.inst.*G).erase((t.inst.*G).begin() + k); add(t); }
	for (size_t m = 0; m < I.methods.size(); m++) { Scenario t = s; t.inst.methods.erase(t.inst.methods.begin() + m); closeUnreachable(t.inst); add(t); }
	for (size_t m = 0; m < I.methods.size(); m++) for (size_t k = 0; k < I.methods[m].sub.size() && I.methods[m].sub.size() > 1; k++) {
		Scenario t = s; Method &M = t.inst.methods[m]; M.sub.erase(M.sub.begin() + k);
		// keep the transitive order of what remains
		int n = I.methods[m].sub.size(); vector<vector<char>> c(n, vector<char>(n, 0)); for (auto &p : M.ord) c[p.first][p.second] = 1;
		for (int x = 0; x < n; x++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (c[a][x] && c[x][b]) c[a][b] = 1;
		M.ord.clear(); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (c[a][b] && a != (int)k && b != (int)k) M.ord.push_back({a - (a > (int)k), b - (b > (int)k)});
		closeUnreachable(t.inst); add(t);
	}
	bool to = totallyOrdered(I);
	for (size_t m = 0; m < I.methods.size(); m++) for (size_t k = 0; k < I.methods[m].ord.size(); k++) { Scenario t = s; auto &o = t.inst.methods[m].ord; o.erase(o.begin() + k); if (!to || totallyOrdered(t.inst)) add(t); }
	for (size_t m = 0; m < I.methods.size(); m++) for (size_t k = 0; k < I.methods[m].sub.size(); k++) if (I.isAbs(I.methods[m].sub[k])) { Scenario t = s; t.inst.methods[m].sub[k] = 0; closeUnreachable(t.inst); add(t); }
	for (size_t k = 0; k < I.goal.size(); k++) { Scenario t = s; t.inst.goal.erase(t.inst.goal.begin() + k); add(t); }
	for (size_t a = 0; a < I.actions.size(); a++) {
		for (size_t k = 0; k < I.actions[a].pre.size(); k++) { Scenario t = s; auto &v = t.inst.actions[a].pre; v.erase(v.begin() + k); add(t); }
		if (!I.actions[a].add.empty() && !I.actions[a].del.empty()) { Scenario t = s; t.inst.actions[a].add.clear(); t.inst.actions[a].del.clear(); add(t); }
		for (size_t k = 0; k < I.actions[a].add.size(); k++) { Scenario t = s; auto &v = t.inst.actions[a].add; v.erase(v.begin() + k); add(t); }
		for (size_t k = 0; k < I.actions[a].del.size(); k++) { Scenario t = s; auto &v = t.inst.actions[a].del; v.erase(v.begin() + k); add(t); }
		for (auto Q : {&Action::cadd, &Action::cdel}) for (size_t k = 0; k < (I.actions[a].*Q).size(); k++) { Scenario t = s; auto &v = t.inst.actions[a].*Q; v.erase(v.begin() + k); add(t); }
		if (I.actions[a].cost > 1) { Scenario t = s; t.inst.actions[a].cost = 1; add(t); }
		if (I.actions[a].cost == 0) { Scenario t = s; t.inst.actions[a].cost = 1; add(t); }
	}
	// drop whole variables that nothing mentions
	for (size_t v = 0; v < I.vars.size() && I.vars.size() > 1; v++) {
		int lo = I.vars[v].first, hi = I.vars[v].last; bool used = false; auto in = [&](const vector<int> &x) { for (int f : x) if (f >= lo && f <= hi) used = true; };
		in(I.goal); for (auto &a : I.actions) { in(a.pre); in(a.add); in(a.del); if (!a.cadd.empty() || !a.cdel.empty()) used = true; } if (!I.mutex.empty() || !I.strictMutex.empty() || !I.invariants.empty()) used = true;
		if (used) continue; Scenario t = s; Inst &J = t.inst; int w = hi - lo + 1; J.facts.erase(J.facts.begin() + lo, J.facts.begin() + hi + 1); J.vars.erase(J.vars.begin() + v);
		for (auto &x : J.vars) if (x.first > hi) { x.first -= w; x.last -= w; }
		auto fix = [&](vector<int> &x) { vector<int> y; for (int f : x) if (f < lo) y.push_back(f); else if (f > hi) y.push_back(f - w); x = y; };
		fix(J.s0); fix(J.goal); for (auto &a : J.actions) { fix(a.pre); fix(a.add); fix(a.del); } add(t);
	}
}
static Scenario minimise(const Prop &P, Scenario s, const string &kind, double maxSec) {
	time_t t0; struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); t0 = ts.tv_sec; int tries = 0;
	for (bool ch = true; ch;) {
		ch = false; vector<Scenario> C; candidates(s, C);
		for (auto &c : C) { clock_gettime(CLOCK_MONOTONIC, &ts); if (ts.tv_sec - t0 > maxSec) return s; Ctx x; tries++; if (P.check(c, x).kind == kind) { s = c; ch = true; break; } }
	}
	return s;
}
static string slurpF(const string &f) { ifstream i(f, ios::binary); stringstream b; b << i.rdbuf(); return b.str(); }
static string jesc(const string &s) { string o; char b[8]; for (unsigned char c : s) if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; return o; }
}
using namespace vsim;
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
// engsim search <prop> <seed0> <worker> <workers> <tier> <seconds> <maxScen> <outdir>
// engsim replay <file>            prints KIND / HASH
// engsim hash <prop> <seed> <from> <to>       determinism log
int main(int argc, char **argv) {
	int per = personality(0xffffffff);
	if (per >= 0 && !(per & ADDR_NO_RANDOMIZE)) { personality(per | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
	rtInit();
	if (argc < 3) return 2;
	string mode = argv[1]; auto props = engineProps();
	auto findP = [&](const string &id) -> Prop & { for (auto &p : props) if (p.id == id) return p; fprintf(stderr, "no such property\n"); exit(2); };
	string scr = getenv("ENGSIM_SCRATCH") ? getenv("ENGSIM_SCRATCH") : "/dev/shm/engsim." + to_string(getpid());
	runnerInit(scr);
	auto genS = [&](Prop &P, uint64_t seed, long i, int tier) { Rng r(fnv(P.id, seed * 1000003ULL) ^ (0x9E3779B97F4A7C15ULL * (i + 1))); Scenario s; s.prop = P.id; s.seed = i; s.sim.heapSeed = r.next(); s.sim.clockSeed = r.next(); s.sim.readSeed = r.next(); s.sat.seed = r.next(); s.peer.seed = r.next(); P.gen(r, s, tier); if (s.hasInst && !s.rawInput) untidy(s.inst); addKnownMutexes(s.inst); return s; };
	int rc = 0;
	if (mode == "replay") {
		Scenario s; if (!s.parse(slurpF(argv[2]))) { fprintf(stderr, "cannot parse replay file\n"); rc = 2; }
		else { Prop &P = findP(s.prop); Ctx c; Verdict v = P.check(s, c); printf("KIND %s\nHASH %016lx\nDETAIL %s\nCLS %s\n", v.kind.c_str(), c.hash, jesc(v.detail).c_str(), v.cls.c_str());
			if (argc > 3) { RunOut o = runEngine(s); cout << o.out << "\n--- stderr\n" << o.err; for (auto &f : o.files) cout << "\n--- file " << f.first << "\n" << f.second; cout << "\n--- code " << o.code << " sig " << o.sig << " allocs " << o.sh.allocs << " bytes " << o.sh.allocBytes << " note " << o.sh.note << "\n"; } }
	} else if (mode == "gen") { Prop &P = findP(argv[2]); cout << genS(P, strtoull(argv[3], 0, 10), atol(argv[4]), 0).text(); }
	else if (mode == "hash") {
		Prop &P = findP(argv[2]); for (long i = atol(argv[4]); i < atol(argv[5]); i++) { Scenario s = genS(P, strtoull(argv[3], 0, 10), i, 0); Ctx c; Verdict v = P.check(s, c); printf("%ld %016lx %016lx %s\n", i, c.hash, c.trace, v.kind.c_str()); }
	} else if (mode == "kinds") {      // development aid: every scenario of a range, with what it does
		Prop &P = findP(argv[2]); map<string,long> cls; long step = argc > 6 ? atol(argv[6]) : 1;
		for (long i = atol(argv[4]); i < atol(argv[5]); i += step) { Scenario s = genS(P, strtoull(argv[3], 0, 10), i, 0); Ctx c; Verdict v = P.check(s, c); cls[v.cls + (v.inconclusive ? " (inconclusive)" : "")]++; if (!v.kind.empty()) { printf("%ld %s:", i, v.kind.c_str()); for (auto &x : s.args) printf(" %s", x.c_str()); printf(" | %s\n", jesc(v.detail).substr(0, 160).c_str()); fflush(stdout); } }
		for (auto &x : cls) printf("CLS %ld %s\n", x.second, x.first.c_str());
	} else if (mode == "search") {
		if (argc < 10) return 2;
		Prop &P = findP(argv[2]); uint64_t seed = strtoull(argv[3], 0, 10); long w = atol(argv[4]), W = atol(argv[5]); int tier = atoi(argv[6]); double secs = atof(argv[7]); long maxS = atol(argv[8]); string out = argv[9];
		set<string> known; for (int i = 10; i < argc; i++) known.insert(argv[i]);
		double t0 = now(); long n = 0, nontriv = 0, runs = 0, inconc = 0; int64_t simUs = 0; uint64_t fired[FK_MAX] = {0}, events = 0; map<string,long> cls; set<uint64_t> traces; map<string,long> knownHits; map<string,string> knownWhere; bool bad = false;
		vector<string> samples; long viol = 0, twice = 0; set<uint64_t> distinctNT; double slow = 0; long slowI = -1; map<string,uint64_t> probes;
		for (long i = w; n < maxS && now() - t0 < secs; i += W, n++) {
			double ts = now(); Scenario s = genS(P, seed, i, tier); Ctx c; Verdict v = P.check(s, c); if (now() - ts > slow) { slow = now() - ts; slowI = i; } for (auto &x : c.probes) probes[x]++;
			runs += c.runs; simUs += c.simUs; events += c.events; for (int k = 0; k < FK_MAX; k++) fired[k] += c.fired[k];
			traces.insert(c.trace); cls[v.cls]++; if (v.nontrivial) { nontriv++; distinctNT.insert(c.trace); } if (v.inconclusive) inconc++;
			if (samples.size() < 3 && v.nontrivial) { string a; for (auto &x : s.args) a += " " + x; samples.push_back("seed " + to_string(i) + " args" + a + " -> " + v.cls); }
			// every 64th scenario is run twice: determinism self-check
			if (i % 64 == 0) { twice++; Ctx d; P.check(s, d); if (d.hash != c.hash) { printf("NONDET %ld\n", i); ofstream(out + "/nondet." + to_string(w) + ".replay") << s.text(); bad = true; break; } }
			if (!v.kind.empty()) {
				// gate 1: the same scenario again, in this process, must give the same run
				Ctx d; Verdict v2 = P.check(s, d); if (v2.kind != v.kind || d.hash != c.hash) { printf("NONDET %ld kind=%s/%s\n", i, v.kind.c_str(), v2.kind.c_str()); ofstream(out + "/nondet." + to_string(w) + ".replay") << s.text(); bad = true; break; }
				if (known.count(v.kind)) { if (!knownHits[v.kind]++) knownWhere[v.kind] = v.detail; continue; }
				Scenario m = minimise(P, s, v.kind, 40); Ctx e; Verdict vm = P.check(m, e);
				string f = out + "/viol." + to_string(w) + "." + to_string(viol) + ".replay"; { ofstream o(f); o << "# property " << P.id << ": " << vm.kind << ": " << jesc(vm.detail).substr(0, 400) << "\n# found with seed " << seed << " scenario " << i << ", minimised\n" << m.text(); }
				printf("FOUND %s %016lx %s\n", vm.kind.c_str(), e.hash, f.c_str()); fflush(stdout);
				viol++; if (viol >= 1) break;
			}
		}
		{ ofstream o(out + "/nt." + to_string(w)); for (auto x : distinctNT) o << x << "\n"; ofstream q(out + "/tr." + to_string(w)); for (auto x : traces) q << x << "\n"; }
		printf("STATS {\"scenarios\":%ld,\"runs\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"inconclusive\":%ld,\"sim_s\":%.3f,\"events\":%lu,\"distinct_traces\":%zu,\"wall\":%.2f,", n, runs, nontriv, distinctNT.size(), inconc, simUs / 1e6, events, traces.size(), now() - t0);
		printf("\"faults\":{"); bool f1 = true; for (int k = 0; k < FK_MAX; k++) if (fired[k]) { printf("%s\"%s\":%lu", f1 ? "" : ",", faultName[k], fired[k]); f1 = false; }
		printf("},\"classes\":{"); f1 = true; for (auto &x : cls) { printf("%s\"%s\":%ld", f1 ? "" : ",", jesc(x.first).c_str(), x.second); f1 = false; }
		printf("},\"known\":{"); f1 = true; for (auto &x : knownHits) { printf("%s\"%s\":%ld", f1 ? "" : ",", jesc(x.first).c_str(), x.second); f1 = false; }
		printf("},\"probes\":{"); f1 = true; for (auto &x : probes) { printf("%s\"%s\":%lu", f1 ? "" : ",", jesc(x.first).c_str(), x.second); f1 = false; }
		printf("},\"twice\":%ld,\"slowest\":%.2f,\"slowest_seed\":%ld,\"samples\":[", twice, slow, slowI); f1 = true; for (auto &x : samples) { printf("%s\"%s\"", f1 ? "" : ",", jesc(x).c_str()); f1 = false; }
		printf("]}\n"); rc = bad ? 3 : 0;
	} else rc = 2;
	if (!getenv("ENGSIM_SCRATCH")) { string c = scr; for (const char *f : {"p.sas"}) unlink((c + "/" + f).c_str()); rmdir(c.c_str()); }
	return rc;
}
