// The simulated Fast Downward process behind system(): reads the SAS+ file the engine wrote,
// solves it by exhaustive search in a seeded order, writes the plan file. Faults per PeerCfg.
#include "scenario.hpp"
#include <algorithm>
#include <cstring>
#include <deque>
#include <fstream>
#include <sstream>
#include <unordered_map>
#include <fcntl.h>
#include <unistd.h>
using namespace std;
namespace vsim {
static PeerCfg PC; static int launches;
void peerBegin(const PeerCfg &c) { PC = c; launches = 0; }
struct Eff { vector<pair<int,int>> cond; int var, pre, post; };
struct Op { string name; vector<pair<int,int>> prev; vector<Eff> eff; int cost; };
struct SasTask { int metric = 0; vector<int> dom, init; vector<pair<int,int>> goal; vector<vector<pair<int,int>>> mutex; vector<Op> ops; };
static bool readTask(const string &txt, SasTask &T, string &why) {
	istringstream in(txt); string l; bool ok = true;
	auto line = [&]() { string s; do { if (!getline(in, s)) { ok = false; return string(); } while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); } while (s.empty()); return s; };
	auto expect = [&](const char *w) { string s = line(); if (ok && s != w) { ok = false; why = "expected " + string(w) + " got " + s; } };
	auto ints = [&](size_t n) { string s = line(); istringstream t(s); vector<int> r; long x; while (t >> x) r.push_back(x); if (!t.eof() || (n && r.size() != n)) { ok = false; if (why.empty()) why = "bad integer line '" + s + "'"; r.resize(n ? n : 1); } return r; };
	expect("begin_version"); int v = ints(1)[0]; if (v != 3) ok = false; expect("end_version"); expect("begin_metric"); T.metric = ints(1)[0]; expect("end_metric");
	int nv = ints(1)[0]; for (int i = 0; i < nv && ok; i++) { expect("begin_variable"); line(); ints(1); int d = ints(1)[0]; T.dom.push_back(d); if (d < 1) { ok = false; why = "empty domain"; } for (int j = 0; j < d && ok; j++) line(); expect("end_variable"); }
	auto chk = [&](int var, int val, bool minus) { if (var < 0 || var >= nv || val < (minus ? -1 : 0) || (var >= 0 && var < nv && val >= T.dom[var])) { ok = false; if (why.empty()) why = "fact " + to_string(var) + "=" + to_string(val) + " out of range"; } };
	int nm = ok ? ints(1)[0] : 0; for (int i = 0; i < nm && ok; i++) { expect("begin_mutex_group"); T.mutex.push_back({}); int k = ints(1)[0]; for (int j = 0; j < k && ok; j++) { auto p = ints(2); chk(p[0], p[1], false); T.mutex.back().push_back({p[0], p[1]}); } expect("end_mutex_group"); }
	expect("begin_state"); for (int i = 0; i < nv && ok; i++) { int x = ints(1)[0]; chk(i, x, false); T.init.push_back(x); } expect("end_state");
	expect("begin_goal"); int ng = ok ? ints(1)[0] : 0; for (int i = 0; i < ng && ok; i++) { auto p = ints(2); chk(p[0], p[1], false); T.goal.push_back({p[0], p[1]}); } expect("end_goal");
	int no = ok ? ints(1)[0] : 0;
	for (int i = 0; i < no && ok; i++) {
		Op o; expect("begin_operator"); o.name = line(); int np = ints(1)[0]; for (int j = 0; j < np && ok; j++) { auto p = ints(2); chk(p[0], p[1], false); o.prev.push_back({p[0], p[1]}); }
		int ne = ok ? ints(1)[0] : 0;
		for (int j = 0; j < ne && ok; j++) { auto r = ints(0); Eff e; size_t q = 0; int nc = r.empty() ? -1 : r[q++]; if (nc < 0 || r.size() != (size_t)nc * 2 + 4) { ok = false; why = "bad effect line of " + o.name; break; } for (int k = 0; k < nc; k++) { chk(r[q], r[q + 1], false); e.cond.push_back({r[q], r[q + 1]}); q += 2; } e.var = r[q]; e.pre = r[q + 1]; e.post = r[q + 2]; chk(e.var, e.pre, true); chk(e.var, e.post, false); if (e.pre >= 0) o.prev.push_back({e.var, e.pre}); o.eff.push_back(e); }
		o.cost = ok ? ints(1)[0] : 0; expect("end_operator"); T.ops.push_back(o);
	}
	int ax = ok ? ints(1)[0] : 0; if (ax != 0) ok = false;
	if (ok) { string rest; while (getline(in, rest)) if (!rest.empty() && rest.find_first_not_of(" \t\r") != string::npos) { ok = false; why = "trailing data"; } }
	return ok;
}
string checkSasFile(const string &txt) { SasTask T; string why; if (readTask(txt, T, why)) return ""; return why.empty() ? "ends early or has trailing data" : why; }
// 1 solved, 0 unsolvable, -1 cap; falseMutex: a mutex group of the file of which two facts hold in a state that was reached
static int solveTask(const SasTask &T, vector<int> &plan, Rng &r, int order, long cap, int &falseMutex) {
	falseMutex = -1; auto look = [&](const vector<short> &s) { for (size_t m = 0; m < T.mutex.size(); m++) { int c = 0; for (auto &p : T.mutex[m]) c += s[p.first] == p.second; if (c > 1) falseMutex = m; } };
	struct N { vector<short> s; int par, op; }; vector<N> nodes; unordered_map<string,int> seen; deque<int> q;
	auto key = [](const vector<short> &s) { return string((const char *)s.data(), s.size() * sizeof s[0]); };
	vector<short> s0(T.init.begin(), T.init.end()); nodes.push_back({s0, -1, -1}); seen[key(s0)] = 0; q.push_back(0);
	vector<int> ord(T.ops.size()); for (size_t i = 0; i < ord.size(); i++) ord[i] = i; if (order) r.shuffle(ord);
	while (!q.empty()) {
		int x; if (order == 1) { x = q.back(); q.pop_back(); } else if (order == 2) { size_t k = r.below(q.size()); x = q[k]; q[k] = q.back(); q.pop_back(); } else { x = q.front(); q.pop_front(); }
		auto s = nodes[x].s; look(s); bool g = true; for (auto &p : T.goal) if (s[p.first] != p.second) g = false;
		if (g) { for (int y = x; nodes[y].par >= 0; y = nodes[y].par) plan.push_back(nodes[y].op); reverse(plan.begin(), plan.end()); return 1; }
		if ((long)nodes.size() > cap) return -1;
		for (int oi : ord) { const Op &o = T.ops[oi]; bool ok = true; for (auto &p : o.prev) if (s[p.first] != p.second) { ok = false; break; } if (!ok) continue;
			auto n = s; for (auto &e : o.eff) { bool c = true; for (auto &p : e.cond) if (s[p.first] != p.second) c = false; if (c) n[e.var] = e.post; }
			auto k = key(n); if (seen.count(k)) continue; seen[k] = nodes.size(); nodes.push_back({n, x, oi}); q.push_back(nodes.size() - 1); }
	}
	return 0;
}
static string rawRead(const string &f, bool &ok) { int fd = open(f.c_str(), O_RDONLY); ok = fd >= 0; string s; if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static void rawWrite(const string &f, const string &t) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return; size_t d = 0; while (d < t.size()) { ssize_t n = write(fd, t.data() + d, t.size() - d); if (n <= 0) break; d += n; } close(fd); }
static int runPeer(const char *cmdc) {
	string cmd = cmdc; int k = launches++; bool flt = PC.faultAt == k;
	clockAdvance(PC.runUs);
	size_t a = cmd.find("--internal-plan-file "), b = cmd.rfind("< ");
	if (a == string::npos || b == string::npos) { snprintf(SH->note, sizeof SH->note, "unexpected command: %.300s", cmdc); return 127 << 8; }
	string pf; { istringstream i(cmd.substr(a + 21)); i >> pf; } string sf; { istringstream i(cmd.substr(b + 2)); i >> sf; }
	if (flt && PC.kind == 4) { fire(FK_PEER_MISSING, k); return 127 << 8; }
	if (flt && PC.kind == 5) { fire(FK_PEER_CRASH, k); return PC.code; }
	bool ok; string txt = rawRead(sf, ok); if (!ok) return 33 << 8;
	SasTask T; string why; if (!readTask(txt, T, why)) { snprintf(SH->note, sizeof SH->note, "peer cannot read the SAS+ file: %.300s", why.c_str()); return 33 << 8; }
	Rng r(PC.seed + k * 977); vector<int> plan; int fm; int res = solveTask(T, plan, r, PC.order, PC.nodeCap, fm); if (fm >= 0) { snprintf(SH->note, sizeof SH->note, "false mutex group %d in the SAS+ file", fm); return 33 << 8; } if (!T.mutex.empty()) SH->probes[13]++;
	event(0xFD, res, plan.size());
	SH->probes[0]++; SH->probes[res == 1 ? 1 : res == 0 ? 2 : 3]++;
	if (flt && PC.kind == 0) { fire(FK_PEER_CRASH, k); return PC.code << 8; }
	if (flt && PC.kind == 1) { fire(FK_PEER_CRASH, k); return PC.code; }
	if (res == 1) {
		string t; long c = 0; for (int o : plan) { t += "(" + T.ops[o].name + ")\n"; c += T.metric ? T.ops[o].cost : 1; } t += "; cost = " + to_string(c) + (T.metric ? " (general cost)\n" : " (unit cost)\n"); SH->probes[14] = 1 + c;
		string f = PC.planDot1 ? pf + ".1" : pf;
		if (flt && PC.kind == 2) { fire(FK_PEER_TORN, k); long cut = PC.cut % (long)(t.size() + 1); rawWrite(f, t.substr(0, cut)); return PC.code; }
		if (flt && PC.kind == 3) { fire(FK_PEER_NOPLAN, k); rawWrite(f, ""); return PC.code; }
		rawWrite(f, t); return 0;
	}
	if (res == 0) return PC.codeUnsolvable << 8;
	return 23 << 8;   // out of time
}
}
using namespace vsim;
extern "C" int system(const char *cmd) {
	if (!cmd) return 1;
	SH->systems++; event(0x575, SH->systems);
	rtPause(); int r; { r = runPeer(cmd); } rtResume();
	event(0x576, r); return r;
}
