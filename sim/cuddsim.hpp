// Histories of decision-diagram operations: scenario, interpreter interface.
#pragma once
#include "simrt.hpp"
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace vsim {
struct Op { std::string name; long a[5] = {0, 0, 0, 0, 0}; };
struct CScen {
	std::string prop; uint64_t seed = 0; SimCfg sim; std::map<std::string, long> k; std::vector<Op> ops;
	long knob(const char *n, long d = 0) const { auto i = k.find(n); return i == k.end() ? d : i->second; }
	std::string text() const; bool parse(const std::string &);
};
struct CRes {                 // written by the child, in shared memory
	char kind[120], detail[600]; uint64_t hash; int done;
	long ops, okOps, refused, reorders, gcs, checks, fullChecks, excuses[8], loads, stores, storeFail, loadFail, allocFails, resizes, nodes, maxNodes;
	int lastOp, opReo; char lastName[48];
};
struct COut { CRes r; Shared sh; int sig = 0, code = 0; };
COut runCudd(const CScen &s);
void interpret(const CScen &s, CRes &r);       // in the child
struct OpDef { std::string name, group; };
const std::vector<OpDef> &opDefs();
void genCudd(struct Rng &r, CScen &s, int tier);
extern const char *cuddProps[];
}
