// The interpreter: runs a history of operations on a real CUDD manager and on tables that define their meaning.
#include "cuddsim.hpp"
#include "rng.hpp"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unistd.h>
#include "config.h"
#include "util.h"
#include "mtr.h"
#include "epd.h"
#include "cudd.h"
#include "cuddInt.h"
#include "dddmp.h"
using namespace std;
extern "C" { int ddVerifMemChunk = 1022, ddVerifCheckMask = 0x7ff; }      // hook PANDA_VERIF in cuddInt.h
namespace vsim {
typedef vector<char> T;            // truth table / family of sets
typedef vector<double> D;          // arithmetic table
static CRes *RES;
[[noreturn]] static void violation(const string &kind, const string &detail) {
	rtPause(); if (!RES->kind[0]) { snprintf(RES->kind, sizeof RES->kind, "%s", kind.c_str()); snprintf(RES->detail, sizeof RES->detail, "%s", detail.c_str()); }
	RES->done = 1; _exit(0);
}
static void mix(uint64_t x) { RES->hash = fnv(&x, 8, RES->hash); }
template<class F> static auto R(F f) -> decltype(f()) { struct G { G() { rtResume(); } ~G() { rtPause(); } } g; return f(); }

static long termLeft = -1; static bool termFired = false; static long termCalls = 0;
static int termCb(const void *) { termCalls++; if (termLeft < 0) return 0; if (termLeft-- == 0) { termLeft = 0; termFired = true; fire(FK_TERMINATE, termCalls); return 1; } return 0; }
static long gcHook = 0, reoHook = 0;
static int preGc(DdManager *, const char *, void *) { gcHook++; fire(FK_GC, gcHook); return 1; }
static int preReo(DdManager *, const char *, void *) { reoHook++; fire(FK_REORDER, reoHook); if (++RES->opReo > 5000) { snprintf(RES->kind, sizeof RES->kind, "no_progress:%s", RES->lastName); snprintf(RES->detail, sizeof RES->detail, "operation %d (%s) was interrupted by 5000 reorderings", RES->lastOp, RES->lastName); _exit(0); } return 1; }
static void oomQuiet(size_t) {}

struct Disk { string data; size_t pos = 0; long cap = -1; long eioAt = -1; int shortMax = 0; Rng r{1}; long ops = 0; };
static ssize_t dkRead(void *c, char *b, size_t n) { Disk *d = (Disk *)c; bool a = rtActive; rtPause(); ssize_t res; d->ops++;
	if (d->eioAt >= 0 && d->ops > d->eioAt) { fire(FK_READ_EIO, d->ops); errno = EIO; res = -1; }
	else { size_t left = d->data.size() - d->pos; if (n > left) n = left; if (d->shortMax && n > 1) { size_t m = 1 + d->r.below(d->shortMax); if (m < n) { n = m; fire(FK_READ_SHORT, m); } } memcpy(b, d->data.data() + d->pos, n); d->pos += n; res = n; }
	if (a) rtResume(); return res; }
static ssize_t dkWrite(void *c, const char *b, size_t n) { Disk *d = (Disk *)c; bool a = rtActive; rtPause(); ssize_t res; d->ops++;
	if (d->eioAt >= 0 && d->ops > d->eioAt) { fire(FK_WRITE_EIO, d->ops); errno = EIO; res = 0; }
	else { if (d->cap >= 0) { long left = d->cap - (long)d->data.size(); if ((long)n > left) { fire(left > 0 ? FK_WRITE_SHORT : FK_WRITE_ENOSPC, n); n = left > 0 ? left : 0; errno = ENOSPC; } } if (d->shortMax && n > 1) { size_t m = 1 + d->r.below(d->shortMax); if (m < n) { n = m; fire(FK_WRITE_SHORT, m); } } d->data.append(b, n); res = n; }
	if (a) rtResume(); return res; }
static FILE *openDisk(Disk *d, const char *m, bool unbuf) { cookie_io_functions_t f{dkRead, dkWrite, nullptr, nullptr}; FILE *p = fopencookie(d, m, f); if (p && unbuf) setvbuf(p, nullptr, _IONBF, 0); return p; }
static Disk *simDisk;      // what a file name means to the code under test
}
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) { using namespace vsim; if (strncmp(p, "/sim/", 5)) return __real_fopen(p, m); return openDisk(simDisk, m, false); }
namespace vsim {
static ssize_t nullWrite(void *, const char *b, size_t n) { if (getenv("CUDDSIM_ECHO")) fwrite(b, 1, n, stderr); return n; }

struct In {
	const CScen &S; DdManager *m = nullptr; int N, n0, zm, NZ; size_t W, WZ; FILE *sink = nullptr;
	vector<DdNode *> B, A, Z; vector<T> b, z; vector<D> a;
	const Op *op = nullptr; long allocMark = 0, reoMark = 0, gcMark = 0; bool limTime = false, limMem = false, limLive = false, opLimit = false; bool linear = false; bool dynWanted = false;
	bool resourceTrouble = false, unchecked = false;
	vector<vector<int>> groups; vector<int> groupFixed;    // variable index groups that must stay contiguous
	In(const CScen &s) : S(s) {}
	int sz() { return Cudd_ReadSize(m); }
	string hist() { return "operation " + to_string(RES->lastOp) + " (" + RES->lastName + ")"; }

	// ---------------------------------------------------------- reading diagrams
	void tabB(DdNode *f, unordered_map<DdNode *, T> &memo, T &out) {
		bool c = Cudd_IsComplement(f); DdNode *r = Cudd_Regular(f); auto it = memo.find(r);
		if (it == memo.end()) {
			T t(W, 1); if (!Cudd_IsConstant(r)) { int i = Cudd_NodeReadIndex(r); if (i < 0 || i >= N) violation("bad_node", hist() + ": a node carries variable index " + to_string(i)); T x, y; tabB(Cudd_T(r), memo, x); tabB(Cudd_E(r), memo, y); for (size_t k = 0; k < W; k++) t[k] = (k >> i & 1) ? x[k] : y[k]; }
			else if (Cudd_V(r) != 1.0) violation("bad_node", hist() + ": a boolean diagram ends in the constant " + to_string(Cudd_V(r)));
			it = memo.emplace(r, t).first;
		}
		out = it->second; if (c) for (auto &v : out) v = !v;
	}
	void tabA(DdNode *f, unordered_map<DdNode *, D> &memo, D &out) {
		auto it = memo.find(f);
		if (it == memo.end()) {
			D t(W); if (Cudd_IsComplement(f)) violation("bad_node", hist() + ": complemented edge in an arithmetic diagram");
			if (Cudd_IsConstant(f)) t.assign(W, Cudd_V(f)); else { int i = Cudd_NodeReadIndex(f); if (i < 0 || i >= N) violation("bad_node", hist() + ": a node carries variable index " + to_string(i)); D x, y; tabA(Cudd_T(f), memo, x); tabA(Cudd_E(f), memo, y); for (size_t k = 0; k < W; k++) t[k] = (k >> i & 1) ? x[k] : y[k]; }
			it = memo.emplace(f, t).first;
		}
		out = it->second;
	}
	void tabZ(DdNode *f, unordered_map<DdNode *, T> &memo, T &out) {
		auto it = memo.find(f);
		if (it == memo.end()) {
			T t(WZ, 0); if (Cudd_IsComplement(f)) violation("bad_node", hist() + ": complemented edge in a zero-suppressed diagram");
			if (Cudd_IsConstant(f)) { if (Cudd_V(f) == 1.0) t[0] = 1; else if (Cudd_V(f) != 0.0) violation("bad_node", hist() + ": bad terminal in a zero-suppressed diagram"); }
			else { int i = Cudd_NodeReadIndex(f); if (i < 0 || i >= NZ) violation("bad_node", hist() + ": a node carries set element " + to_string(i)); T x, y; tabZ(Cudd_T(f), memo, x); tabZ(Cudd_E(f), memo, y); for (size_t k = 0; k < WZ; k++) { if (y[k]) t[k] = 1; if (x[k]) t[k | (size_t)1 << i] = 1; if (x[k] && (k >> i & 1)) violation("bad_node", hist() + ": an element occurs twice on a path"); } }
			it = memo.emplace(f, t).first;
		}
		out = it->second;
	}
	T rb(DdNode *f) { unordered_map<DdNode *, T> mm; T o; tabB(f, mm, o);
		if (linear) { T q(W); vector<T> v(sz()); for (int i = 0; i < sz(); i++) tabB(Cudd_bddIthVar(m, i), mm, v[i]); vector<char> seen(W, 0); for (size_t k = 0; k < W; k++) { size_t x = k >> sz() << sz(); for (int i = 0; i < sz(); i++) if (v[i][k]) x |= (size_t)1 << i; if (seen[x]) violation("linear_not_bijective", hist()); seen[x] = 1; q[x] = o[k]; } return q; }
		return o; }
	D ra(DdNode *f) { unordered_map<DdNode *, D> mm; D o; tabA(f, mm, o); return o; }
	T rz(DdNode *f) { unordered_map<DdNode *, T> mm; T o; tabZ(f, mm, o); return o; }
	static bool eqD(double x, double y) { if (x == y || (std::isnan(x) && std::isnan(y))) return true; if (std::isinf(x) || std::isinf(y)) return false; return fabs(x - y) <= 1e-9 * max(1.0, max(fabs(x), fabs(y))); }
	static bool eqD(const D &x, const D &y) { for (size_t i = 0; i < x.size(); i++) if (!eqD(x[i], y[i])) return false; return true; }
	static string show(const T &t) { string s; for (size_t i = 0; i < t.size() && i < 64; i++) s += t[i] ? '1' : '0'; if (t.size() > 64) s += ".."; return s; }
	static string show(const D &t) { string s; char x[32]; for (size_t i = 0; i < t.size() && i < 16; i++) { snprintf(x, 32, "%g ", t[i]); s += x; } return s; }

	// ---------------------------------------------------------- operands and results
	int ib(int k) { return (int)((unsigned long)op->a[k] % B.size()); } int ia(int k) { return (int)((unsigned long)op->a[k] % A.size()); } int iz(int k) { return (int)((unsigned long)op->a[k] % Z.size()); }
	int iv(int k) { return (int)((unsigned long)op->a[k] % (unsigned long)sz()); }
	long n(int k, long lo, long hi) { return lo + (long)((unsigned long)op->a[k] % (unsigned long)(hi - lo + 1)); }
	void begin() { if (m) Cudd_ClearErrorCode(m); allocMark = SH->fired[FK_ALLOC]; reoMark = reoHook; gcMark = gcHook; termFired = false; opLimit = false; }
	// an operation gave no result: was there a cause?
	void refused(const char *what = "") {
		RES->refused++; int e = Cudd_ReadErrorCode(m); bool al = (long)SH->fired[FK_ALLOC] > allocMark;
		bool ok = al || limMem || limLive || limTime || termFired || opLimit;
		if (!ok) violation(string("refused_without_cause:") + op->name, hist() + what + " failed with error code " + to_string(e) + " although nothing was exhausted, limited or interrupted");
		RES->excuses[al ? 0 : opLimit ? 1 : termFired ? 2 : limTime ? 3 : limLive ? 4 : 5]++; if (al) resourceTrouble = true;
		bool okc = e == CUDD_NO_ERROR || (e == CUDD_MEMORY_OUT && (al || limMem || reoHook > reoMark)) || (e == CUDD_TOO_MANY_NODES && (limLive || opLimit)) || (e == CUDD_MAX_MEM_EXCEEDED && limMem) || (e == CUDD_TIMEOUT_EXPIRED && limTime) || (e == CUDD_TERMINATION && termFired);
		if (!okc) violation(string("wrong_error_code:") + op->name, hist() + what + " failed with error code " + to_string(e) + " which is not what happened");
		mix(0xFA11 + e); Cudd_ClearErrorCode(m); resourceTrouble = true; unchecked = true;
	}
	void good() { RES->okOps++; }
	// covers need the two literals of a variable next to each other; a reordering that failed half-way may have left them apart
	bool pairsAdjacent() { for (int i = 0; i < N; i++) if (Cudd_ReadPermZdd(m, 2 * i + 1) != Cudd_ReadPermZdd(m, 2 * i) + 1) return false; return true; }
	void putB(int d, DdNode *r) { R([&] { Cudd_Ref(r); Cudd_RecursiveDeref(m, B[d]); return 0; }); B[d] = r; }
	void putA(int d, DdNode *r) { R([&] { Cudd_Ref(r); Cudd_RecursiveDeref(m, A[d]); return 0; }); A[d] = r; }
	void putZ(int d, DdNode *r) { R([&] { Cudd_Ref(r); Cudd_RecursiveDerefZdd(m, Z[d]); return 0; }); Z[d] = r; }
	void bad(const string &exp, const string &got) { violation("wrong_result:" + op->name, hist() + ": expected " + exp + " but the diagram is " + got); }
	void resB(int d, DdNode *r, const T &e) { if (!r) { refused(); return; } R([&] { Cudd_Ref(r); return 0; }); T g = rb(r); if (g != e) bad(show(e), show(g)); R([&] { Cudd_RecursiveDeref(m, B[d]); return 0; }); B[d] = r; b[d] = e; good(); }
	void resA(int d, DdNode *r, const D &e) { if (!r) { refused(); return; } R([&] { Cudd_Ref(r); return 0; }); D g = ra(r); if (!eqD(g, e)) bad(show(e), show(g)); R([&] { Cudd_RecursiveDeref(m, A[d]); return 0; }); A[d] = r; a[d] = g; good(); }
	void resZ(int d, DdNode *r, const T &e) { if (!r) { refused(); return; } R([&] { Cudd_Ref(r); return 0; }); T g = rz(r); if (g != e) bad(show(e), show(g)); R([&] { Cudd_RecursiveDerefZdd(m, Z[d]); return 0; }); Z[d] = r; z[d] = e; good(); }
	// a result that is only constrained: the property is checked on the table, then it becomes the slot's meaning
	bool resBp(int d, DdNode *r, function<string(const T &)> p) { if (!r) { refused(); return false; } R([&] { Cudd_Ref(r); return 0; }); T g = rb(r); string w = p(g); if (!w.empty()) violation("wrong_result:" + op->name, hist() + ": " + w + ", the diagram is " + show(g)); R([&] { Cudd_RecursiveDeref(m, B[d]); return 0; }); B[d] = r; b[d] = g; good(); return true; }
	// constraints over tables
	static bool leq(const T &x, const T &y) { for (size_t i = 0; i < x.size(); i++) if (x[i] && !y[i]) return false; return true; }
	static bool zero(const T &x) { for (char c : x) if (c) return false; return true; }
	static T tnot(T x) { for (auto &v : x) v = !v; return x; }
	template<class F> static T zip(const T &x, const T &y, F f) { T r(x.size()); for (size_t i = 0; i < r.size(); i++) r[i] = f(x[i], y[i]); return r; }
	static T tand(const T &x, const T &y) { return zip(x, y, [](char p, char q) { return p & q; }); }
	static T tor(const T &x, const T &y) { return zip(x, y, [](char p, char q) { return p | q; }); }
	static T txor(const T &x, const T &y) { return zip(x, y, [](char p, char q) { return p ^ q; }); }
	template<class X> static X cof(const X &x, int v, bool val) { X r(x.size()); size_t bit = (size_t)1 << v; for (size_t i = 0; i < r.size(); i++) r[i] = x[val ? i | bit : i & ~bit]; return r; }
	T texist(T x, unsigned long mask) { for (int i = 0; i < N; i++) if (mask >> i & 1) x = tor(cof(x, i, 0), cof(x, i, 1)); return x; }
	T tuniv(T x, unsigned long mask) { for (int i = 0; i < N; i++) if (mask >> i & 1) x = tand(cof(x, i, 0), cof(x, i, 1)); return x; }
	template<class X> unsigned long supp(const X &x) { unsigned long s = 0; for (int i = 0; i < N; i++) if (cof(x, i, 0) != cof(x, i, 1)) s |= 1UL << i; return s; }
	T tvar(int i) { T r(W); for (size_t k = 0; k < W; k++) r[k] = k >> i & 1; return r; }
	long cnt(const T &x) { long c = 0; for (char v : x) c += v; return c; }
	T cubeT(unsigned long mask, unsigned long ph) { T r(W); for (size_t k = 0; k < W; k++) r[k] = ((k ^ ph) & mask) == 0; return r; }
	bool isCube(const T &x) { if (zero(x)) return false; unsigned long mask = supp(x), ph = 0; for (size_t k = 0; k < W; k++) if (x[k]) { ph = k; break; } return x == cubeT(mask, ph); }
	static D b2a(const T &t) { D r(t.size()); for (size_t i = 0; i < r.size(); i++) r[i] = t[i]; return r; }
	static bool is01(const D &x) { for (double v : x) if (v != 0 && v != 1) return false; return true; }
	static bool integral(const D &x) { for (double v : x) if (v != floor(v) || fabs(v) > 1e9) return false; return true; }
	static bool tame(const D &x) { for (double v : x) if (std::isnan(v) || std::isinf(v) || fabs(v) > 1e9) return false; return true; }
	// cubes used as operands of abstraction: built here, outside the faults, and released again
	struct Quiet { SimCfg save; unsigned long tl; DdManager *m; In &I; DD_THFP cb; long sl; unsigned ml; size_t mm; bool dyn, dz; Cudd_ReorderingType me, mz; bool gc;
		Quiet(In &i) : m(i.m), I(i) { save = CFG; CFG.allocFailAt = -1; tl = Cudd_SetTimeLimit(m, ~0UL); sl = termLeft; termLeft = -1; ml = Cudd_ReadMaxLive(m); Cudd_SetMaxLive(m, ~0U); mm = Cudd_SetMaxMemory(m, ~(size_t)0); dyn = Cudd_ReorderingStatus(m, &me); dz = Cudd_ReorderingStatusZdd(m, &mz); Cudd_AutodynDisable(m); Cudd_AutodynDisableZdd(m); }
		~Quiet() { CFG.allocFailAt = save.allocFailAt; Cudd_SetTimeLimit(m, tl); termLeft = sl; Cudd_SetMaxLive(m, ml); Cudd_SetMaxMemory(m, mm); if (dyn) Cudd_AutodynEnable(m, me); if (dz) Cudd_AutodynEnableZdd(m, mz); } };
	void forget() { R([&] { cuddCacheFlush(m); return 0; }); }     // listed findings: answers remembered for another value of a parameter
	DdNode *must(DdNode *r, const char *w) { if (!r) violation("refused_without_cause:helper", hist() + ": building a helper diagram (" + w + ") failed with error code " + to_string(Cudd_ReadErrorCode(m)) + " although nothing was limited"); return r; }
	DdNode *cube(unsigned long mask, unsigned long ph = ~0UL) { Quiet q(*this); DdNode *vars[16]; int phase[16], c = 0; for (int i = 0; i < sz(); i++) if (mask >> i & 1) { vars[c] = Cudd_bddIthVar(m, i); phase[c++] = ph >> i & 1; }
		DdNode *r = must(R([&] { return Cudd_bddComputeCube(m, vars, phase, c); }), "cube"); R([&] { Cudd_Ref(r); return 0; }); return r; }
	DdNode *acube(unsigned long mask, unsigned long ph = ~0UL) { Quiet q(*this); DdNode *vars[16]; int phase[16], c = 0; for (int i = 0; i < sz(); i++) if (mask >> i & 1) { vars[c] = must(R([&] { return Cudd_addIthVar(m, i); }), "variable"); Cudd_Ref(vars[c]); phase[c++] = ph >> i & 1; }
		DdNode *r = must(R([&] { return Cudd_addComputeCube(m, vars, phase, c); }), "cube"); R([&] { Cudd_Ref(r); for (int i = 0; i < c; i++) Cudd_RecursiveDeref(m, vars[i]); return 0; }); return r; }
	void drop(DdNode *r) { R([&] { Cudd_RecursiveDeref(m, r); return 0; }); }
	void dropZ(DdNode *r) { R([&] { Cudd_RecursiveDerefZdd(m, r); return 0; }); }
	unsigned long vmask(int k) { return (unsigned long)op->a[k] & ((1UL << sz()) - 1); }

	// ---------------------------------------------------------- invariants of the whole manager
	void checkAll(bool deep) {
		RES->fullChecks++;
		{ unordered_map<DdNode *, T> mm; map<T, DdNode *> canon; for (size_t i = 0; i < B.size(); i++) { T g; if (linear) g = rb(B[i]); else tabB(B[i], mm, g); if (g != b[i]) violation("function_changed", hist() + ": boolean diagram " + to_string(i) + " was " + show(b[i]) + " and is now " + show(g)); auto x = canon.emplace(g, B[i]); if (!x.second && x.first->second != B[i]) violation("not_canonical", hist() + ": two different boolean diagrams represent the same function " + show(g)); } }
		{ unordered_map<DdNode *, D> mm; map<D, DdNode *> canon; for (size_t i = 0; i < A.size(); i++) { D g; tabA(A[i], mm, g); if (g != a[i]) { bool nan = false; for (double v : g) nan |= std::isnan(v); if (!nan) violation("function_changed", hist() + ": arithmetic diagram " + to_string(i) + " was " + show(a[i]) + " and is now " + show(g)); } auto x = canon.emplace(g, A[i]); if (!x.second && x.first->second != A[i]) violation("not_canonical", hist() + ": two different arithmetic diagrams represent the same function " + show(g)); } }
		{ unordered_map<DdNode *, T> mm; map<T, DdNode *> canon; for (size_t i = 0; i < Z.size(); i++) { T g; tabZ(Z[i], mm, g); if (g != z[i]) violation("function_changed", hist() + ": zero-suppressed diagram " + to_string(i) + " was " + show(z[i]) + " and is now " + show(g)); auto x = canon.emplace(g, Z[i]); if (!x.second && x.first->second != Z[i]) violation("not_canonical", hist() + ": two different zero-suppressed diagrams represent the same family " + show(g)); } }
		int s = sz(); vector<char> seen(s, 0); for (int i = 0; i < s; i++) { int p = Cudd_ReadPerm(m, i); if (p < 0 || p >= s || seen[p] || Cudd_ReadInvPerm(m, p) != i) violation("order_not_a_permutation", hist() + ": variable " + to_string(i) + " is at level " + to_string(p)); seen[p] = 1; }
		int q = Cudd_ReadZddSize(m); vector<char> sz2(q, 0); for (int i = 0; i < q; i++) { int p = Cudd_ReadPermZdd(m, i); if (p < 0 || p >= q || sz2[p] || Cudd_ReadInvPermZdd(m, p) != i) violation("order_not_a_permutation", hist() + ": set element " + to_string(i) + " is at level " + to_string(p)); sz2[p] = 1; }
		for (size_t g = 0; g < groups.size(); g++) { auto &G = groups[g]; int lo = 1 << 20, hi = -1; for (int i : G) { lo = min(lo, Cudd_ReadPerm(m, i)); hi = max(hi, Cudd_ReadPerm(m, i)); } if (hi - lo + 1 != (int)G.size()) violation("group_split", hist() + ": the variables of a group are not adjacent in the order"); if (groupFixed[g]) for (size_t i = 1; i < G.size(); i++) if (Cudd_ReadPerm(m, G[i - 1]) > Cudd_ReadPerm(m, G[i])) violation("group_reordered", hist() + ": the order inside a fixed group changed"); }
		if (deep) { int d = Cudd_DebugCheck(m); if (d != 0) violation("debug_check", hist() + ": Cudd_DebugCheck returned " + to_string(d)); d = Cudd_CheckKeys(m); if (d != 0) violation("check_keys", hist() + ": Cudd_CheckKeys returned " + to_string(d)); }
	}
	bool start(); void stop(); void setup(); void step(const Op &o);
	DdNode *buildRnd(Rng &r, int lev, unsigned long mask, T &t);
	DdNode *shannonB(const T &t, int v); DdNode *shannonA(const D &t, int v);
};
#include "cudd_oplist.inc"

static const OpTable &table() { static OpTable t; return t; }
const vector<OpDef> &opDefs() { static vector<OpDef> v; if (v.empty()) for (auto &x : table().order) v.push_back({x, table().m.at(x).first}); return v; }
static void knobs(In &I) {
	DdManager *m = I.m; const CScen &s = I.S;
	if (s.k.count("looseup")) Cudd_SetLooseUpTo(m, s.knob("looseup"));
	if (s.k.count("maxcache")) Cudd_SetMaxCacheHard(m, s.knob("maxcache"));
	if (s.k.count("minhit")) Cudd_SetMinHit(m, s.knob("minhit"));
	if (s.k.count("nogc")) Cudd_DisableGarbageCollection(m);
	if (s.k.count("recomb")) Cudd_SetRecomb(m, s.knob("recomb"));
	if (s.k.count("groupcheck")) Cudd_SetGroupcheck(m, (Cudd_AggregationType)s.knob("groupcheck"));
	if (s.k.count("siftmaxvar")) Cudd_SetSiftMaxVar(m, s.knob("siftmaxvar"));
	if (s.k.count("siftmaxswap")) Cudd_SetSiftMaxSwap(m, s.knob("siftmaxswap"));
	if (s.k.count("maxgrowth")) Cudd_SetMaxGrowth(m, s.knob("maxgrowth") / 100.0);
	if (s.k.count("growthalt")) { Cudd_SetMaxGrowthAlternate(m, s.knob("growthalt") / 100.0); Cudd_SetReorderingCycle(m, 2); }
	if (s.k.count("symmviol")) Cudd_SetSymmviolation(m, s.knob("symmviol"));
	if (s.k.count("arcviol")) Cudd_SetArcviolation(m, s.knob("arcviol"));
	if (s.k.count("pop")) Cudd_SetPopulationSize(m, s.knob("pop"));
	if (s.k.count("xovers")) Cudd_SetNumberXovers(m, s.knob("xovers"));
	if (s.k.count("randomize")) Cudd_SetOrderRandomization(m, s.knob("randomize"));
	if (s.k.count("countdead")) Cudd_TurnOnCountDead(m);
	if (s.k.count("srandom")) R([&] { Cudd_Srandom(m, s.knob("srandom")); return 0; });
	if (s.k.count("mindead")) m->minDead = s.knob("mindead");      // how much garbage is tolerated before it is collected
	if (s.k.count("dyn")) { I.dynWanted = true; Cudd_AutodynEnable(m, (Cudd_ReorderingType)s.knob("dyn")); Cudd_SetNextReordering(m, s.knob("dynnext", 20)); }
	if (s.k.count("dynz") && I.zm) Cudd_AutodynEnableZdd(m, (Cudd_ReorderingType)s.knob("dynz"));
	if (s.k.count("realignz") && I.zm) Cudd_zddRealignEnable(m);
}
bool In::start() {
	N = S.knob("N", 5); n0 = S.knob("n0", N); zm = S.knob("zm"); NZ = zm * N; W = (size_t)1 << N; WZ = (size_t)1 << NZ;
	cookie_io_functions_t nf{nullptr, nullWrite, nullptr, nullptr}; sink = fopencookie(nullptr, "w", nf); if (getenv("CUDDSIM_ECHO")) setvbuf(sink, nullptr, _IONBF, 0);
	Cudd_InstallOutOfMemoryHandler(oomQuiet);
	if (S.knob("initfail", -1) >= 0) { CFG.allocFailAt = S.knob("initfail"); CFG.allocFailLen = S.knob("initfaillen", 1); }
	begin(); strcpy(RES->lastName, "Cudd_Init"); ddVerifMemChunk = S.knob("chunk", 1022); ddVerifCheckMask = S.knob("checkmask", 0x7ff);
	m = R([&] { return Cudd_Init(n0, 0, S.knob("slots", 16), S.knob("cache", 64), (size_t)S.knob("maxmem", 1 << 20)); });
	bool failed = SH->fired[FK_ALLOC] > 0; CFG.allocFailAt = -1;
	if (!m) { if (!failed) violation("refused_without_cause:Cudd_Init", "Cudd_Init returned NULL although no allocation failed"); RES->allocFails = SH->fired[FK_ALLOC]; return false; }
	Cudd_SetStdout(m, sink); Cudd_SetStderr(m, sink);
	R([&] { Cudd_RegisterOutOfMemoryCallback(m, oomQuiet); return 0; });
	if (zm) { int r = R([&] { return Cudd_zddVarsFromBddVars(m, zm); }); if (!r) violation("refused_without_cause:zddVarsFromBddVars", "Cudd_zddVarsFromBddVars failed although nothing was limited"); }
	R([&] { Cudd_AddHook(m, preGc, CUDD_PRE_GC_HOOK); Cudd_AddHook(m, preReo, CUDD_PRE_REORDERING_HOOK); return 0; });
	int nb = S.knob("nb", 8), na = S.knob("na", 0), nz = zm ? S.knob("nz", 6) : 0;
	for (int i = 0; i < nb; i++) { DdNode *r = Cudd_ReadLogicZero(m); Cudd_Ref(r); B.push_back(r); b.push_back(T(W, 0)); }
	for (int i = 0; i < na; i++) { DdNode *r = Cudd_ReadZero(m); Cudd_Ref(r); A.push_back(r); a.push_back(D(W, 0)); }
	for (int i = 0; i < nz; i++) { DdNode *r = Cudd_ReadZero(m); Cudd_Ref(r); Z.push_back(r); z.push_back(T(WZ, 0)); }
	knobs(*this); return true;
}
void In::step(const Op &o) {
	auto it = table().m.find(o.name); if (it == table().m.end()) return;
	op = &o; RES->opReo = 0; snprintf(RES->lastName, sizeof RES->lastName, "%s", o.name.c_str()); begin(); RES->ops++; event(0x0b, RES->lastOp);
	char need = it->second.first[0]; if ((need == 'a' && A.empty()) || (need == 'z' && Z.empty()) || (linear && need != 'r' && need != 'm' && it->second.first != "b0")) return;
	DdNode *hidden = nullptr; bool each = S.knob("armeach") > 0, lim = S.knob("limeach") > 0;
	if (each || lim) {      // a failing allocation or a limit of its own, and (as if other diagrams held them) no free and no dead nodes to live on
		int w = S.knob(each ? "armeach" : "limeach"); uint64_t h = ((uint64_t)o.a[0] * 1000003 + o.a[2]) * 0x9E3779B97F4A7C15ULL + RES->ops * 0xD1B54A32D192ED03ULL; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32;
		CFG.allocFailAt = -1;
		if (h % 3 == 0) each = lim = false;
		else if ((h >> 16) % 4) { R([&] { if ((h >> 20) % 4) cuddGarbageCollect(m, 1); return 0; }); hidden = m->nextFree; m->nextFree = nullptr; for (DdNode *x = hidden; x; x = x->next) x->ref = 1; gcMark = gcHook; }
		if (each) { CFG.allocFailAt = SH->allocs + (h >> 8) % w; CFG.allocFailLen = (h >> 24) % 4 ? 1 + ((h >> 26) & 3) : -1; }
		if (lim) { static const char *L[] = {"terminate", "terminate", "maxlive", "maxlive", "maxmem", "timelimit"}; Op x; x.name = L[(h >> 24) % 6]; x.a[0] = (h >> 8) % w; op = &x; table().m.at(x.name).second(*this); op = &o; }
	}
	it->second.second(*this);
	if (each) CFG.allocFailAt = -1;
	if (lim) { Op x; x.name = "unlimit"; op = &x; table().m.at("unlimit").second(*this); op = &o; }
	if (hidden) { for (DdNode *x = hidden; x; x = x->next) x->ref = 0; DdNode **t = &m->nextFree; while (*t) t = &(*t)->next; *t = hidden; }
	long reo = reoHook - reoMark, gc = gcHook - gcMark; RES->reorders += reo; RES->gcs += gc; mix(RES->lastOp * 131 + reo * 7 + gc); RES->allocFails = SH->fired[FK_ALLOC];
	long nn = Cudd_ReadNodeCount(m); if (nn > RES->maxNodes) RES->maxNodes = nn; mix(Cudd_ReadKeys(m)); mix(nn);
	bool deep = S.knob("deep") || unchecked; if (reo || unchecked || RES->lastOp % 16 == 15 || S.knob("deep")) checkAll(deep || reo); unchecked = false;
}
void In::stop() {
	strcpy(RES->lastName, "end of the history"); CFG.allocFailAt = -1; Cudd_UnsetTimeLimit(m); termLeft = -1; Cudd_SetMaxLive(m, ~0U); Cudd_SetMaxMemory(m, ~(size_t)0);
	checkAll(true);
	Cudd_AutodynDisable(m); Cudd_AutodynDisableZdd(m);
	// progress once the faults have stopped: the manager still does what it is asked
	if (!linear) {
		begin(); limTime = limMem = limLive = false; Op o; o.name = "after the faults"; op = &o;
		if (B.size() > 2) for (int i = 0; i + 1 < (int)B.size(); i += 2) { DdNode *r = R([&] { return Cudd_bddAnd(m, B[i], B[i + 1]); }); resB(i, r, tand(b[i], b[i + 1])); r = R([&] { return Cudd_bddXor(m, B[i], B[(i + 3) % B.size()]); }); resB(i + 1, r, txor(b[i], b[(i + 3) % B.size()])); }
		if (A.size() > 1) for (int i = 0; i + 1 < (int)A.size(); i += 2) { D e(W); for (size_t k = 0; k < W; k++) e[k] = max(a[i][k], a[i + 1][k]); bool nan = false; for (double v : e) nan |= std::isnan(v); if (nan) continue; DdNode *r = R([&] { return Cudd_addApply(m, Cudd_addMaximum, A[i], A[i + 1]); }); resA(i, r, e); }
		if (Z.size() > 1) for (int i = 0; i + 1 < (int)Z.size(); i += 2) { DdNode *r = R([&] { return Cudd_zddUnion(m, Z[i], Z[i + 1]); }); resZ(i, r, tor(z[i], z[i + 1])); }
		if (SH->fired[FK_ALLOC] == 0 || true) { int rr = R([&] { return Cudd_ReduceHeap(m, CUDD_REORDER_SIFT, 0); }); if (!rr) violation("refused_without_cause:Cudd_ReduceHeap", "after the faults stopped, sifting failed with error code " + to_string(Cudd_ReadErrorCode(m))); }
		checkAll(true);
	}
	for (auto f : B) drop(f); for (auto f : A) drop(f); for (auto f : Z) dropZ(f); B.clear(); A.clear(); Z.clear(); b.clear(); a.clear(); z.clear();
	R([&] { cuddGarbageCollect(m, 1); return 0; });
	int zr = Cudd_CheckZeroRef(m);
	if (zr != 0 && !linear && (!resourceTrouble || S.knob("strictleak"))) violation("references_leaked", "after every diagram was released " + to_string(zr) + " nodes are still referenced");
	int d = Cudd_DebugCheck(m); if (d) violation("debug_check", hist() + ": Cudd_DebugCheck returned " + to_string(d));
	d = Cudd_CheckKeys(m); if (d) violation("check_keys", hist() + ": Cudd_CheckKeys returned " + to_string(d));
	R([&] { Cudd_Quit(m); return 0; }); fclose(sink);
}
void interpret(const CScen &s, CRes &r) {
	RES = &r; rtPause(); RES->hash = 1469598103934665603ULL; RES->kind[0] = 0;
	termLeft = -1; gcHook = reoHook = termCalls = 0;
	In I(s); rtResume(); long live0 = SH->liveBlocks; rtPause();
	if (!I.start()) { RES->done = 1; return; }
	for (size_t i = 0; i < s.ops.size(); i++) { RES->lastOp = i; I.step(s.ops[i]); }
	I.stop();
	long live1 = SH->liveBlocks; if (live1 > live0 && getenv("CUDDSIM_VERBOSE")) rtLive();
	if (live1 > live0 && (!I.resourceTrouble || s.knob("strictleak"))) violation("memory_leaked", "after Cudd_Quit " + to_string(live1 - live0) + " allocated blocks remain");
	mix(SH->allocs); RES->done = 1;
}
}
