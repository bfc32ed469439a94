// Histories of decision-diagram operations: generation, one simulated run per process, search, replay, minimisation.
#include "cuddsim.hpp"
#include "rng.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
using namespace std;
namespace vsim {
static CRes *SR;
#define SIMF(X) X(heapPolicy) X(heapSeed) X(heapFill) X(allocFailAt) X(allocFailLen) X(clockStart) X(clockStep) X(clockSeed) X(clockMode) X(randMode) X(allocBudget) X(byteBudget)
string CScen::text() const {
	ostringstream o; o << "prop=" << prop << "\nseed=" << seed << "\n"; SimCfg d;
#define X(n) if (sim.n != d.n) o << "sim." #n "=" << (long long)sim.n << "\n";
	SIMF(X)
#undef X
	for (auto &p : k) o << "k." << p.first << "=" << p.second << "\n";
	for (auto &p : ops) { o << "op=" << p.name; int n = 5; while (n > 0 && p.a[n - 1] == 0) n--; for (int i = 0; i < n; i++) o << " " << p.a[i]; o << "\n"; }
	return o.str();
}
bool CScen::parse(const string &t) {
	*this = CScen(); istringstream in(t); string l;
	while (getline(in, l)) {
		if (l.empty() || l[0] == '#') continue;
		size_t p = l.find('='); if (p == string::npos) return false; string key = l.substr(0, p), v = l.substr(p + 1);
		if (key == "prop") prop = v; else if (key == "seed") seed = strtoull(v.c_str(), 0, 10);
		else if (key == "op") { istringstream q(v); Op o; q >> o.name; for (int i = 0; i < 5; i++) if (!(q >> o.a[i])) o.a[i] = 0; ops.push_back(o); }
		else if (key.substr(0, 2) == "k.") k[key.substr(2)] = atol(v.c_str());
#define X(n) else if (key == "sim." #n) sim.n = strtoull(v.c_str(), 0, 10);
		SIMF(X)
#undef X
		else return false;
	}
	return true;
}
static const int CPU = getenv("CUDDSIM_CPU") ? atoi(getenv("CUDDSIM_CPU")) : 12;
COut runCudd(const CScen &s) {
	COut o; memset(SR, 0, sizeof *SR); fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		struct rlimit rl{(rlim_t)CPU, (rlim_t)CPU + 5}; setrlimit(RLIMIT_CPU, &rl); struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc); struct rlimit rs{64 << 20, 64 << 20}; setrlimit(RLIMIT_STACK, &rs);
		if (!getenv("CUDDSIM_VERBOSE")) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); }
		SimCfg c = s.sim; c.memCap = 1500L << 20; rtBegin(c); interpret(s, *SR); _exit(0);
	}
	int w = 0; if (waitpid(p, &w, 0) < 0) {}
	o.r = *SR; o.sh = *SH; o.code = WIFEXITED(w) ? WEXITSTATUS(w) : -1; o.sig = WIFSIGNALED(w) ? WTERMSIG(w) : 0;
	return o;
}
struct CVerdict { string kind, detail, cls; bool nontrivial = false, inconclusive = false; uint64_t hash = 0, trace = 0; COut o; };
static string simple(string s) { for (auto &c : s) if (c == ' ') c = '_'; return s; }
static CVerdict judge(const CScen &s) {
	CVerdict v; v.o = runCudd(s); CRes &r = v.o.r; string where = string(r.lastName);
	v.kind = simple(r.kind); v.detail = r.detail;
	if (v.kind.empty() && v.o.sig) { if ((v.o.sig == SIGXCPU || v.o.sig == SIGKILL) && r.opReo > 10) { v.inconclusive = true; v.o.sh.allocs = 0; } else if (v.o.sig == SIGXCPU || v.o.sig == SIGKILL) { v.kind = "no_progress:" + simple(where); v.detail = "operation " + to_string(r.lastOp) + " (" + where + ") did not end within the run's time"; } else { v.kind = "crash:" + simple(where); v.detail = "signal " + to_string(v.o.sig) + " in operation " + to_string(r.lastOp) + " (" + where + ")"; } }
	else if (v.kind.empty() && v.o.code == 96) { v.kind = "heap_misuse:" + simple(where); v.detail = string(v.o.sh.note) + " in operation " + to_string(r.lastOp) + " (" + where + ")"; }
	else if (v.kind.empty() && v.o.code == 97) { v.inconclusive = true; }
	else if (v.kind.empty() && v.o.code != 0) { v.kind = "process_exit:" + simple(where); v.detail = "the process exited with status " + to_string(v.o.code) + " in operation " + to_string(r.lastOp) + " (" + where + ")"; }
	else if (v.kind.empty() && !r.done) { v.kind = "process_exit:" + simple(where); v.detail = "the process ended by itself with status 0 in operation " + to_string(r.lastOp) + " (" + where + ")"; }
	const string &P = s.prop; long lim = r.excuses[1] + r.excuses[2] + r.excuses[3] + r.excuses[4] + r.excuses[5];
	if (P == "C04") v.nontrivial = r.allocFails > 0; else if (P == "C05") v.nontrivial = r.reorders > 0 && r.okOps > 4; else if (P == "C06") v.nontrivial = r.stores > 0; else if (P == "C07") v.nontrivial = lim > 0; else if (P == "C08") v.nontrivial = r.gcs > 0 && r.okOps > 4; else v.nontrivial = r.okOps > 4;
	string c = v.inconclusive ? "effort bound" : r.refused == 0 ? "every operation answered" : "some operations refused"; if (r.reorders) c += ", reordered"; if (r.gcs) c += ", collected"; if (r.allocFails && r.ops == 0) c = "manager refused"; v.cls = c;
	v.hash = r.hash; v.hash = fnv(&v.o.sh.traceHash, 8, v.hash); v.hash = fnv(&v.o.sh.allocs, 8, v.hash); v.hash = fnv(&v.o.code, 4, v.hash); v.trace = fnv(&r.hash, 8, v.o.sh.traceHash); if (v.inconclusive) v.hash = v.o.sh.allocs; 
	if (v.kind.compare(0, 11, "no_progress") == 0) v.hash = fnv(v.kind);      // a run that was cut off by the watchdog stops at an arbitrary place
	return v;
}
static void candidates(const CScen &s, vector<CScen> &C, bool coarse) {
	size_t n = s.ops.size();
	if (coarse) { for (size_t w = n / 2; w >= 1; w /= 2) for (size_t i = 0; i + w <= n; i += w) { CScen t = s; t.ops.erase(t.ops.begin() + i, t.ops.begin() + i + w); C.push_back(t); } return; }
	SimCfg d;
#define X(f) if (s.sim.f != d.f) { CScen t = s; t.sim.f = d.f; C.push_back(t); }
	X(heapPolicy) X(heapFill) X(randMode) X(clockMode)
#undef X
	for (auto &p : s.k) if (p.first != "zm" && p.first != "N" && p.first != "n0" && p.first != "strictleak" && p.first != "nb" && p.first != "na" && p.first != "nz" && p.first != "initfail") { CScen t = s; t.k.erase(p.first); C.push_back(t); }
	for (const char *x : {"nb", "na", "nz"}) if (s.knob(x) > 3) { CScen t = s; t.k[x] = 3; C.push_back(t); }
	if (s.knob("N") > 2 && s.knob("n0") == s.knob("N")) { CScen t = s; t.k["N"]--; t.k["n0"]--; C.push_back(t); }
	for (size_t i = 0; i < n; i++) for (int j = 0; j < 5; j++) if (s.ops[i].a[j]) { if (s.ops[i].a[j] > 64) { CScen t = s; t.ops[i].a[j] %= 64; C.push_back(t); t.ops[i].a[j] %= 8; C.push_back(t); } CScen t = s; t.ops[i].a[j] = 0; C.push_back(t); if (s.ops[i].a[j] > 1) { t.ops[i].a[j] = s.ops[i].a[j] / 2; C.push_back(t); } }
}
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static CScen minimise(CScen s, const string &kind, double secs) {
	double t0 = now(); bool ch = true;
	{ CVerdict v = judge(s); size_t keep = (size_t)v.o.r.lastOp + 1; if (keep < s.ops.size()) { CScen t = s; t.ops.resize(keep); if (judge(t).kind == kind) s = t; } }
	while (ch) {
		ch = false;
		for (int pass = 0; pass < 2; pass++) for (bool again = true; again;) { again = false; vector<CScen> C; candidates(s, C, pass == 0); for (auto &c : C) { if (now() - t0 > secs) return s; if (judge(c).kind == kind) { s = c; again = true; ch = true; break; } } }
		if (ch && now() - t0 > secs) break; if (ch) { CScen before = s; }
		{ bool any = false; vector<CScen> C; candidates(s, C, true); for (auto &c : C) { if (now() - t0 > secs) return s; if (judge(c).kind == kind) { s = c; any = true; break; } } ch = any; }
	}
	return s;
}
static string slurpF(const string &f) { ifstream i(f, ios::binary); stringstream b; b << i.rdbuf(); return b.str(); }
static string jesc(const string &s) { string o; char b[8]; for (unsigned char c : s) if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; return o; }

// ------------------------------------------------------------------ generation
struct Mix { map<string, int> w; };
void genCudd(Rng &r, CScen &s, int tier) {
	const string &P = s.prop; map<string, int> w;       // weight per operation group
	auto K = [&](const char *n, long v) { s.k[n] = v; };
	bool zdd = P == "C03" || ((P == "C04" || P == "C05" || P == "C08" || P == "C07") && r.chance(1, 4)); int zm = zdd ? (r.chance(1, 2) ? 1 : 2) : 0; if (P == "C01" && r.chance(1, 8)) zm = 1;
	bool add = P == "C02" || (P != "C01" && P != "C03" && r.chance(1, 3));
	int N = zm == 2 ? r.range(2, 4) : zm == 1 ? r.range(3, 7) : r.range(2, 7); if (!zm && r.chance(1, 12)) N = 8; K("N", N); int n0 = N; if (!zm && r.chance(1, 6)) n0 = r.range(1, N); K("n0", n0); if (zm) K("zm", zm);
	K("nb", r.range(3, 12)); K("na", add ? r.range(3, 10) : 0); K("nz", zm ? r.range(3, 8) : 0);
	static const int SL[] = {2, 4, 8, 16, 32, 256}; K("slots", SL[r.below(6)]); static const int CA[] = {2, 4, 16, 64, 512, 4096}; K("cache", CA[r.below(6)]); if (r.chance(1, 2)) K("maxmem", r.chance(1, 2) ? 1 << 16 : 1 << 24);
	s.sim.heapPolicy = r.below(4); s.sim.heapFill = r.below(4); s.sim.clockMode = r.below(3); s.sim.clockStep = r.chance(1, 4) ? 3000 : 50; s.sim.randMode = 0;
	if (r.chance(1, 4)) K("looseup", r.below(200)); if (r.chance(1, 4)) K("maxcache", r.range(1, 400)); if (r.chance(1, 4)) K("minhit", r.range(0, 80)); if (r.chance(1, 2)) K("mindead", r.below(30)); if (r.chance(1, 10)) K("nogc", 1); if (r.chance(1, 5)) K("countdead", 1);
	if (r.chance(1, 6)) K("srandom", r.below(1000));
	bool reo = P == "C05" || r.chance(1, 3);
	if (reo) { if (r.chance(1, 2)) { static const int M[] = {4, 5, 6, 7, 8, 9, 10, 14, 15, 2, 3, 20, 16, 17}; K("dyn", M[r.below(14)]); K("dynnext", r.range(4, 80)); if (zm && r.chance(1, 2)) K("dynz", r.chance(1, 2) ? 4 : 6); }
		if (zm && r.chance(1, 3)) K("realignz", 1);
		if (r.chance(1, 4)) K("siftmaxvar", r.range(1, 10)); if (r.chance(1, 5)) K("siftmaxswap", r.range(1, 30)); if (r.chance(1, 4)) K("maxgrowth", 100 + r.below(150)); if (r.chance(1, 8)) K("growthalt", 100 + r.below(100)); if (r.chance(1, 5)) { static const int G[] = {0, 5, 7}; K("groupcheck", G[r.below(3)]); }; if (r.chance(1, 5)) K("recomb", r.below(10)); if (r.chance(1, 6)) K("symmviol", r.below(50)); if (r.chance(1, 6)) K("arcviol", r.below(50)); if (r.chance(1, 5)) K("pop", r.range(0, 8)); if (r.chance(1, 5)) K("xovers", r.range(0, 6)); if (r.chance(1, 6)) K("randomize", r.below(4)); }
	if (P == "C01") { w = {{"b0", 6}, {"b1", 8}, {"b2", 8}, {"m", 2}, {"r", 1}}; }
	else if (P == "C02") { w = {{"b0", 1}, {"b1", 2}, {"a1", 10}, {"a2", 5}, {"m", 1}, {"r", 1}}; }
	else if (P == "C03") { w = {{"b0", 1}, {"b1", 2}, {"z0", 8}, {zm == 2 ? "z1" : "z2", 6}, {"z3", 1}, {"m", 1}, {"r", 1}}; }
	else if (P == "C04") { w = {{"b0", 4}, {"b1", 6}, {"b2", 5}, {"a1", 4}, {"a2", 2}, {"z0", 4}, {zm == 2 ? "z1" : "z2", 3}, {"m", 2}, {"r", 2}, {"XA", 6}}; K("strictleak", 1); if (r.chance(1, 8)) { K("initfail", r.below(40)); K("initfaillen", r.range(1, 3)); } }
	else if (P == "C05") { w = {{"b0", 4}, {"b1", 6}, {"a1", 4}, {"z0", 4}, {zm == 2 ? "z1" : "z2", 2}, {"m", 2}, {"r", 8}, {"z3", zm ? 4 : 0}}; if (!zm && !add && r.chance(1, 5)) { w = {{"b0", 8}, {"l", 2}, {"m", 1}, {"b1", 8}}; s.k.erase("dyn"); } }
	else if (P == "C06") { w = {{"b0", 2}, {"b1", 4}, {"a1", 3}, {"m", 1}, {"r", 2}, {"f", 10}}; }
	else if (P == "C07") { w = {{"b0", 4}, {"b1", 6}, {"b2", 5}, {"a1", 4}, {"a2", 2}, {"z0", 4}, {zm == 2 ? "z1" : "z2", 3}, {"m", 1}, {"r", 2}, {"XL", 6}}; K("strictleak", 1); }
	else { w = {{"b0", 6}, {"b1", 8}, {"b2", 5}, {"a1", 5}, {"a2", 2}, {"z0", 5}, {zm == 2 ? "z1" : "z2", 3}, {"m", 8}, {"r", 2}, {"f", 0}}; K("strictleak", 1); if (r.chance(1, 3)) K("deep", 1); }
	if ((P == "C01" || P == "C02" || P == "C03") && r.chance(1, 4)) w["XL"] = 1;
	if (!zm) { w.erase("z0"); w.erase("z1"); w.erase("z2"); w.erase("z3"); } if (!add) { w.erase("a1"); w.erase("a2"); } if (!reo) { w.erase("r"); w.erase("z3"); } for (auto it = w.begin(); it != w.end();) if (!it->second) it = w.erase(it); else ++it;
	// operations by group; a history uses a random subset of them, so that some get long and varied runs
	map<string, vector<string>> by; for (auto &o : opDefs()) by[o.group].push_back(o.name);
	by["XA"] = {"allocfail", "allocfail", "allocok"}; by["XL"] = {"maxlive", "maxmem", "timelimit", "clockjump", "clockjump", "terminate", "unlimit", "unlimit"};
	if (P != "C05" || r.chance(1, 2)) { auto &v = by["r"]; v.erase(remove(v.begin(), v.end(), "group"), v.end()); v.erase(remove(v.begin(), v.end(), "ungroup"), v.end()); }
	if (P == "C04") {    // not under allocation failure (recorded findings): approximation, decomposition, splitting and two-literal clauses use tables they did not get
		static const set<string> off = {"approx", "decompose", "simplify", "splitSet", "twoLiteral"};
		for (auto &g : by) { vector<string> v; for (auto &x : g.second) if (!off.count(x)) v.push_back(x); g.second = v; }
	}
	if (r.chance(1, 2)) for (auto &g : by) if (g.first != "XA" && g.first != "XL") { vector<string> v; for (auto &x : g.second) if (r.chance(1, 2)) v.push_back(x); if (!v.empty()) g.second = v; }
	long tot = 0; for (auto &x : w) if (!by[x.first].empty()) tot += x.second;
	int len = r.range(15, tier ? 160 : 90); 
	if (r.chance(3, 4)) { static const int CH[] = {3, 8, 25, 80, 250}; K("chunk", CH[r.below(5)]); } if (P == "C07" ? r.chance(3, 4) : r.chance(1, 4)) K("checkmask", (1 << r.below(7)) - 1);      // nodes per allocation: small ones bring every limit check and allocation failure of a large diagram into small ones
	if (P == "C04" && r.chance(1, 2)) { static const int W[] = {1, 2, 4, 8, 16, 32}; K("armeach", W[r.below(6)]); K("chunk", r.range(1, 3)); if (r.chance(1, 2)) K("nogc", 1); tot -= w["XA"]; w.erase("XA"); }      // most operations meet a failing allocation of their own
	if (P == "C07" && r.chance(1, 2)) { static const int W[] = {1, 2, 4, 8, 16, 40}; K("limeach", W[r.below(6)]); K("chunk", r.range(1, 3)); if (r.chance(1, 2)) K("nogc", 1); tot -= w["XL"]; w.erase("XL"); }      // the same with a limit
	auto op = [&](const string &n) { Op o; o.name = n; for (int i = 0; i < 5; i++) o.a[i] = (long)r.below(1000000); if (n == "limited") o.a[4] = r.below(1000); s.ops.push_back(o); };
	for (int i = 0; i < 2 + (int)r.below(4); i++) op("bddRnd"); if (add) for (int i = 0; i < 3 + (int)r.below(3); i++) op("addRnd"); if (zm) for (int i = 0; i < 3 + (int)r.below(3); i++) op("zddRnd");
	for (int i = 0; i < len; i++) { long t = r.below(tot); for (auto &x : w) { if (by[x.first].empty()) continue; if ((t -= x.second) < 0) { op(r.pick(by[x.first])); break; } } if (r.chance(1, 12)) op(add && r.chance(1, 2) ? "addRnd" : zm && r.chance(1, 2) ? "zddRnd" : "bddRnd"); }
}
const char *cuddProps[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", nullptr};
}
using namespace vsim;
int main(int argc, char **argv) {
	int per = personality(0xffffffff);
	if (per >= 0 && !(per & ADDR_NO_RANDOMIZE)) { personality(per | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
	rtInit(); SR = (CRes *)mmap(nullptr, sizeof(CRes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc < 3) return 2; string mode = argv[1];
	auto genS = [&](const string &prop, uint64_t seed, long i, int tier) { Rng r(fnv(prop, seed * 1000003ULL) ^ (0x9E3779B97F4A7C15ULL * (i + 1))); CScen s; s.prop = prop; s.seed = i; s.sim.heapSeed = r.next() >> 1; s.sim.clockSeed = r.next() >> 1; genCudd(r, s, tier); return s; };
	if (mode == "replay") {
		CScen s; if (!s.parse(slurpF(argv[2]))) { fprintf(stderr, "cannot parse replay file\n"); return 2; }
		CVerdict v = judge(s); printf("KIND %s\nHASH %016lx\nDETAIL %s\nCLS %s\n", v.kind.c_str(), v.hash, jesc(v.detail).c_str(), v.cls.c_str());
		if (argc > 3) { auto &r = v.o.r; printf("ops %ld ok %ld refused %ld reorders %ld gcs %ld fullChecks %ld stores %ld/%ld loads %ld/%ld allocFails %ld maxNodes %ld lastOp %d %s allocs %lu code %d sig %d\n", r.ops, r.okOps, r.refused, r.reorders, r.gcs, r.fullChecks, r.stores, r.storeFail, r.loads, r.loadFail, r.allocFails, r.maxNodes, r.lastOp, r.lastName, v.o.sh.allocs, v.o.code, v.o.sig); }
		return 0;
	}
	if (mode == "gen") { cout << genS(argv[2], strtoull(argv[3], 0, 10), atol(argv[4]), argc > 5 ? atoi(argv[5]) : 0).text(); return 0; }
	if (mode == "hash") { for (long i = atol(argv[4]); i < atol(argv[5]); i++) { CVerdict v = judge(genS(argv[2], strtoull(argv[3], 0, 10), i, 0)); printf("%ld %016lx %016lx %s\n", i, v.hash, v.trace, v.kind.c_str()); } return 0; }
	if (mode == "opcov") { map<string, long> c; for (long i = 0; i < atol(argv[4]); i++) for (auto &o : genS(argv[2], strtoull(argv[3], 0, 10), i, 0).ops) c[o.name]++; for (auto &x : c) printf("%s %ld\n", x.first.c_str(), x.second); return 0; }
	if (mode == "kinds") {  // survey: kinds found in a range of scenarios, with the first scenario of each
		map<string, pair<long, long>> c; map<string, string> d; for (long i = atol(argv[4]); i < atol(argv[5]); i++) { CVerdict v = judge(genS(argv[2], strtoull(argv[3], 0, 10), i, 0)); if (v.kind.empty() && !v.inconclusive) continue; string k = v.inconclusive ? "(inconclusive)" : v.kind; if (!c.count(k)) { c[k] = {0, i}; d[k] = v.detail; } c[k].first++; } for (auto &x : c) printf("%ld %s first=%ld %s\n", x.second.first, x.first.c_str(), x.second.second, jesc(d[x.first]).substr(0, 250).c_str()); return 0; }
	if (mode == "min") { CScen s = argc > 4 ? genS(argv[2], strtoull(argv[3], 0, 10), atol(argv[4]), 0) : CScen(); if (argc <= 4) s.parse(slurpF(argv[2])); CVerdict v = judge(s); if (v.kind.empty()) { printf("no violation\n"); return 0; } CScen m = minimise(s, v.kind, 60); CVerdict e = judge(m); printf("# %s: %s\n%s", e.kind.c_str(), jesc(e.detail).c_str(), m.text().c_str()); return 0; }
	if (mode != "search" || argc < 10) return 2;
	string prop = argv[2]; bool okp = false; for (int i = 0; cuddProps[i]; i++) okp |= prop == cuddProps[i]; if (!okp) return 2;
	uint64_t seed = strtoull(argv[3], 0, 10); long w = atol(argv[4]), W = atol(argv[5]); int tier = atoi(argv[6]); double secs = atof(argv[7]); long maxS = atol(argv[8]); string out = argv[9]; set<string> known; for (int i = 10; i < argc; i++) known.insert(argv[i]);
	double t0 = now(), slow = 0; long slowI = -1, n = 0, runs = 0, nontriv = 0, inconc = 0, viol = 0, twice = 0; int64_t simUs = 0; uint64_t fired[FK_MAX] = {0}, events = 0; map<string, long> cls, knownHits; set<uint64_t> traces, dNT; vector<string> samples; bool bad = false; map<string, uint64_t> probes;
	for (long i = w; n < maxS && now() - t0 < secs; i += W, n++) {
		double ts = now(); CScen s = genS(prop, seed, i, tier); CVerdict v = judge(s); if (now() - ts > slow) { slow = now() - ts; slowI = i; }
		runs++; simUs += v.o.sh.simSpanUs; events += v.o.sh.events; for (int k = 0; k < FK_MAX; k++) fired[k] += v.o.sh.fired[k];
		auto &q = v.o.r; probes["operations"] += q.ops; probes["operations_answered"] += q.okOps; probes["operations_refused"] += q.refused; probes["reorderings"] += q.reorders; probes["garbage_collections"] += q.gcs; probes["whole_manager_checks"] += q.fullChecks; probes["files_stored"] += q.stores; probes["files_refused_or_damaged_on_store"] += q.storeFail; probes["files_loaded"] += q.loads; probes["loads_refused"] += q.loadFail; static const char *ex[] = {"refused_allocation", "refused_operation_limit", "refused_termination", "refused_time", "refused_live_nodes", "refused_memory"}; for (int k = 0; k < 6; k++) probes[ex[k]] += q.excuses[k];
		traces.insert(v.trace); cls[v.cls]++; if (v.nontrivial) { nontriv++; dNT.insert(v.trace); } if (v.inconclusive) inconc++;
		if (samples.size() < 3 && v.nontrivial) { string a; for (size_t k = 0; k < s.ops.size() && k < 12; k++) a += " " + s.ops[k].name; samples.push_back("seed " + to_string(i) + ":" + a + " ... -> " + v.cls); }
		if (i % 64 == 0) { twice++; CVerdict d = judge(s); if (d.hash != v.hash) { printf("NONDET %ld\n", i); ofstream(out + "/nondet." + to_string(w) + ".replay") << s.text(); bad = true; break; } }
		if (!v.kind.empty()) {
			CVerdict d = judge(s); if (d.kind != v.kind || d.hash != v.hash) { printf("NONDET %ld kind=%s/%s\n", i, v.kind.c_str(), d.kind.c_str()); ofstream(out + "/nondet." + to_string(w) + ".replay") << s.text(); bad = true; break; }
			if (known.count(v.kind)) { knownHits[v.kind]++; continue; }
			CScen m = minimise(s, v.kind, 40); CVerdict e = judge(m);
			string f = out + "/viol." + to_string(w) + "." + to_string(viol) + ".replay"; { ofstream o(f); o << "# property " << prop << ": " << e.kind << ": " << jesc(e.detail).substr(0, 400) << "\n# found with seed " << seed << " scenario " << i << ", minimised\n" << m.text(); }
			printf("FOUND %s %016lx %s\n", e.kind.c_str(), e.hash, f.c_str()); fflush(stdout); if (++viol >= 1) break;
		}
	}
	{ ofstream o(out + "/nt." + to_string(w)); for (auto x : dNT) o << x << "\n"; ofstream q(out + "/tr." + to_string(w)); for (auto x : traces) q << x << "\n"; }
	printf("STATS {\"scenarios\":%ld,\"runs\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"inconclusive\":%ld,\"sim_s\":%.3f,\"events\":%lu,\"distinct_traces\":%zu,\"wall\":%.2f,", n, runs, nontriv, dNT.size(), inconc, simUs / 1e6, events, traces.size(), now() - t0);
	printf("\"faults\":{"); bool f1 = true; for (int k = 0; k < FK_MAX; k++) if (fired[k]) { printf("%s\"%s\":%lu", f1 ? "" : ",", faultName[k], fired[k]); f1 = false; }
	printf("},\"classes\":{"); f1 = true; for (auto &x : cls) { printf("%s\"%s\":%ld", f1 ? "" : ",", jesc(x.first).c_str(), x.second); f1 = false; }
	printf("},\"known\":{"); f1 = true; for (auto &x : knownHits) { printf("%s\"%s\":%ld", f1 ? "" : ",", jesc(x.first).c_str(), x.second); f1 = false; }
	printf("},\"probes\":{"); f1 = true; for (auto &x : probes) { printf("%s\"%s\":%lu", f1 ? "" : ",", jesc(x.first).c_str(), x.second); f1 = false; }
	printf("},\"twice\":%ld,\"slowest\":%.2f,\"slowest_seed\":%ld,\"samples\":[", twice, slow, slowI); f1 = true; for (auto &x : samples) { printf("%s\"%s\"", f1 ? "" : ",", jesc(x).c_str()); f1 = false; }
	printf("]}\n"); return bad ? 3 : 0;
}
