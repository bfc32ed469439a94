#include "scenario.hpp"
#include "monitor.hpp"
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdlib>
#include <csignal>
using namespace std;
int engine_main(int argc, char **argv);
namespace vsim {
static uint64_t work() { return SH->allocs + SH->frees + SH->clockReads + SH->reads + SH->writes + SH->randCalls; }
static void onProf(int) { if (!SH->snapTaken) { SH->snapTaken = 1; SH->snapWork = work(); } }
void peerBegin(const PeerCfg &c);
string scratchDir;

#define SIMF(X) X(heapPolicy) X(heapSeed) X(heapFill) X(allocFailAt) X(allocFailLen) X(allocFailMin) X(siteCount) X(allocFailSite) X(allocFailOcc) X(memCap) X(allocBudget) X(byteBudget) X(clockStart) X(clockStep) X(clockSeed) X(clockMode) X(limitUs) X(randMode) X(readSeed) X(readShort) X(readEintrAt) X(readEintrLen) X(readEioAt) X(writeCap) X(writeEioAt) X(writeEintrAt) X(writeShort)
#define SATF(X) X(seed) X(phaseMode) X(orderMode) X(savePhase) X(intAt) X(intLen) X(maxSolves)
#define PEERF(X) X(seed) X(order) X(planDot1) X(faultAt) X(kind) X(code) X(cut) X(stale) X(nodeCap) X(codeUnsolvable) X(runUs) X(resid)
#define BDDF(X) X(slots) X(cache) X(reorder) X(maxMem) X(chunk)
static string esc(const string &s) { string o; char b[8]; for (unsigned char c : s) if (c == '%' || c == '\n' || c < 32 || c > 126) { snprintf(b, 8, "%%%02X", c); o += b; } else o += c; return o; }
static string unesc(const string &s) { string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }
string Scenario::text() const {
	ostringstream o; o << "prop=" << prop << "\nseed=" << seed << "\n";
	for (auto &a : args) o << "arg=" << esc(a) << "\n";
	SimCfg d; SatCfg e; PeerCfg f;
#define X(n) if (sim.n != d.n) o << "sim." #n "=" << (long long)sim.n << "\n";
	SIMF(X)
#undef X
	for (int i = 0; i < 4; i++) if (sim.jumpAt[i] >= 0) o << "jump=" << sim.jumpAt[i] << " " << sim.jumpBy[i] << "\n";
#define X(n) if (sat.n != e.n) o << "sat." #n "=" << (long long)sat.n << "\n";
	SATF(X)
#undef X
#define X(n) if (peer.n != f.n) o << "peer." #n "=" << (long long)peer.n << "\n";
	PEERF(X)
#undef X
#define X(n) if (bdd.n != BddCfg().n) o << "bdd." #n "=" << (long long)bdd.n << "\n";
	BDDF(X)
#undef X
	for (auto &p : opt) o << "opt." << p.first << "=" << p.second << "\n";
	if (viaStdin) o << "viaStdin=1\n";
	if (hasStdin) o << "stdin=" << esc(stdinText) << "\n";
	if (rawInput) o << "input=" << esc(input) << "\n";
	if (hasInst) o << "instance<<\n" << toSas(inst) << ">>\n";
	return o.str();
}
bool Scenario::parse(const string &t) {
	*this = Scenario(); hasInst = false; istringstream in(t); string l; int nj = 0;
	while (getline(in, l)) {
		if (l == "instance<<") { string b; while (getline(in, l) && l != ">>") b += l + "\n"; if (!fromSas(b, inst)) return false; hasInst = true; continue; }
		if (l.empty() || l[0] == '#') continue;
		size_t p = l.find('='); if (p == string::npos) return false; string k = l.substr(0, p), v = l.substr(p + 1);
		if (k == "prop") prop = v; else if (k == "seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "arg") args.push_back(unesc(v));
		else if (k == "jump" && nj < 4) { long a; long long b; if (sscanf(v.c_str(), "%ld %lld", &a, &b) != 2) return false; sim.jumpAt[nj] = a; sim.jumpBy[nj++] = b; }
		else if (k == "viaStdin") viaStdin = true; else if (k == "stdin") { hasStdin = true; stdinText = unesc(v); } else if (k == "input") { rawInput = true; input = unesc(v); }
#define X(n) else if (k == "sim." #n) sim.n = strtoull(v.c_str(), 0, 10);
		SIMF(X)
#undef X
#define X(n) else if (k == "sat." #n) sat.n = strtoull(v.c_str(), 0, 10);
		SATF(X)
#undef X
#define X(n) else if (k == "peer." #n) peer.n = strtoull(v.c_str(), 0, 10);
		PEERF(X)
#undef X
#define X(n) else if (k == "bdd." #n) bdd.n = strtoull(v.c_str(), 0, 10);
		BDDF(X)
#undef X
		else if (k.substr(0, 4) == "opt.") opt[k.substr(4)] = atol(v.c_str());
		else return false;
	}
	return true;
}
uint64_t RunOut::hash() const { uint64_t h = fnv(out); h = fnv(&code, 4, h); h = fnv(&sig, 4, h); h = fnv(&sh.traceHash, 8, h); h = fnv(&sh.allocs, 8, h); for (auto &f : files) h = fnv(f.first + f.second, h); return h; }

static int fdOut = -1, fdErr = -1;
static void rmFiles() {
	DIR *d = opendir(scratchDir.c_str()); if (!d) return; vector<string> v;
	while (auto *e = readdir(d)) if (e->d_type != DT_DIR) v.push_back(e->d_name);
	closedir(d); for (auto &f : v) unlink((scratchDir + "/" + f).c_str());
}
void runnerInit(const string &s) { scratchDir = s; mkdir(s.c_str(), 0700); fdOut = memfd_create("out", 0); fdErr = memfd_create("err", 0); }
static string slurpFd(int fd) { off_t n = lseek(fd, 0, SEEK_END); string s(n > 0 ? n : 0, 0); if (n > 0 && pread(fd, &s[0], n, 0) != n) s.clear(); return s; }
static string slurp(const string &f) { ifstream i(f, ios::binary); stringstream b; b << i.rdbuf(); return b.str(); }

RunOut runEngine(const Scenario &s, int cpuSec) {
	RunOut R; rmFiles();
	string in = s.rawInput ? s.input : toSas(s.inst); string f = scratchDir + "/p.sas";
	{ ofstream o(f, ios::binary); o << in; }
	SimCfg c = s.sim; struct stat st; if (stat(f.c_str(), &st) == 0) { c.inIno = st.st_ino; c.inDev = st.st_dev; }
	if (s.peer.stale) { string stale = "(primitive[id[0],head[0],]: stale[])\n; cost = 1 (unit cost)\n"; if (s.peer.stale & 1) { ofstream o(scratchDir + "/output.sas.plan"); o << stale; } if (s.peer.stale & 2) { ofstream o(scratchDir + "/output.sas.plan.1"); o << stale; } }
	int fdIn = -1; if (s.hasStdin || s.viaStdin) { fdIn = memfd_create("in", 0); string t = s.viaStdin ? in : s.stdinText; if (write(fdIn, t.data(), t.size()) < 0) {} lseek(fdIn, 0, SEEK_SET); }
	if (ftruncate(fdOut, 0) || ftruncate(fdErr, 0)) {} lseek(fdOut, 0, SEEK_SET); lseek(fdErr, 0, SEEK_SET);
	vector<string> a{"pandaPIengine"}; for (auto &x : s.args) a.push_back(x); if (!s.viaStdin) a.push_back("p.sas");
	vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
	pid_t p = fork();
	if (p == 0) {
		dup2(fdOut, 1); dup2(fdErr, 2); if (fdIn >= 0) dup2(fdIn, 0); else { int z = open("/dev/null", O_RDONLY); dup2(z, 0); if (z > 2) close(z); }
		if (chdir(scratchDir.c_str())) _exit(91);
		struct rlimit rl{(rlim_t)cpuSec, (rlim_t)cpuSec + 5}; setrlimit(RLIMIT_CPU, &rl); struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
		{ struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onProf; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr); struct itimerval tv{{0, 0}, {cpuSec / 3, 0}}; setitimer(ITIMER_PROF, &tv, nullptr); }
		struct rlimit rf{64 << 20, 64 << 20}; if (s.opt.count("outCap")) { rf.rlim_cur = rf.rlim_max = s.o("outCap"); signal(SIGXFSZ, SIG_IGN); } setrlimit(RLIMIT_FSIZE, &rf);      // the standard output ends here
		satBegin(s.sat); cuddSlots = s.bdd.slots; cuddCache = s.bdd.cache; cuddReorder = s.bdd.reorder; cuddMaxMem = s.bdd.maxMem; cuddChunk = s.bdd.chunk; peerBegin(s.peer); monInst = s.hasInst ? &s.inst : nullptr; monMask = s.o("mon"); monAdm = s.o("adm"); monGCost = s.o("gcost"); monBegin(); rtBegin(c);
		int r = engine_main((int)av.size() - 1, av.data());
		exit(r);
	}
	if (fdIn >= 0) close(fdIn);
	int w = 0; if (waitpid(p, &w, 0) < 0) {}
	R.sh = *SH; R.code = WIFEXITED(w) ? WEXITSTATUS(w) : -1; R.sig = WIFSIGNALED(w) ? WTERMSIG(w) : 0;
	if (R.sig == SIGXCPU || R.sig == SIGKILL) { R.watchdog = true; R.sig = 0; R.stuck = R.sh.snapTaken && R.sh.snapWork == R.sh.allocs + R.sh.frees + R.sh.clockReads + R.sh.reads + R.sh.writes + R.sh.randCalls; }
	R.out = slurpFd(fdOut); R.err = slurpFd(fdErr);
	DIR *d = opendir(scratchDir.c_str()); if (d) { while (auto *e = readdir(d)) if (e->d_type != DT_DIR && string(e->d_name) != "p.sas") R.files[e->d_name] = slurp(scratchDir + "/" + e->d_name); closedir(d); }
	return R;
}
}
