// A scenario is everything a simulated run depends on; its text form is the replay file.
#pragma once
#include "htn.hpp"
#include "ipasir_sim.hpp"
#include "simrt.hpp"
#include <map>
#include <string>
#include <vector>
namespace vsim {
struct PeerCfg {                 // the simulated Fast Downward process
	uint64_t seed = 1; int order = 0;              // 0 BFS, 1 DFS, 2 random
	int planDot1 = 0;                              // write <file>.1 instead of <file>
	// what goes wrong at the k-th launch: kind -1 none
	int faultAt = -1; int kind = 0;                // 0 exit code fault, 1 killed by signal, 2 torn plan, 3 empty plan file, 4 not installed (127), 5 crash before reading
	int code = 0; long cut = -1;
	int stale = 0;                                 // 1: an old plan file lies around before the start, 2: an old .1 file
	long nodeCap = 200000; int codeUnsolvable = 11;
	int64_t runUs = 1000000; int resid = 0;
};
struct BddCfg { unsigned slots = 256, cache = 4096; int reorder = 0; unsigned long maxMem = 0; int chunk = 0; };
extern unsigned cuddSlots, cuddCache; extern int cuddReorder; extern unsigned long cuddMaxMem; extern int cuddChunk;
struct Scenario {
	std::string prop; uint64_t seed = 0;
	std::vector<std::string> args;
	Inst inst; bool hasInst = true;
	std::string input;            // if non-empty: raw bytes given to the engine instead of toSas(inst)
	bool rawInput = false; bool viaStdin = false; std::string stdinText; bool hasStdin = false;
	SimCfg sim; SatCfg sat; PeerCfg peer; BddCfg bdd;
	std::map<std::string,long> opt;     // property specific knobs
	std::string text() const;
	bool parse(const std::string &t);
	long o(const std::string &k, long d = 0) const { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
};
struct RunOut {
	int code = 0, sig = 0;        // exit status / signal
	bool watchdog = false;        // CPU watchdog (never expected)
	bool stuck = false;           // ... and no allocation, clock read or I/O happened during the last two thirds
	std::string out, err;
	Shared sh;
	std::map<std::string,std::string> files;      // files found in the scratch directory afterwards
	uint64_t hash() const;
	bool budget() const { return sh.budgetHit || watchdog; }
	bool has(const char *s) const { return out.find(s) != std::string::npos; }
};
RunOut runEngine(const Scenario &s, int cpuSec = 60);
void runnerInit(const std::string &scratch);
extern std::string scratchDir;
extern int g_childKind;
std::string checkSasFile(const std::string &txt);      // "" if Fast Downward can read it
std::string scheck(const std::string &s);
}
