// Property driver: scenario generation, checking, search loop, gating, minimisation, replay.
#pragma once
#include "scenario.hpp"
#include <functional>
#include <set>
#include <string>
#include <vector>
namespace vsim {
struct Verdict {
	std::string kind;        // empty: property held (or nothing to conclude); else violation class (stable while minimising)
	std::string detail;
	std::string cls;         // outcome class, for the statistics
	bool nontrivial = false; // the run reached what the property talks about
	bool inconclusive = false;
};
struct Ctx {                 // what the runs of one scenario did
	uint64_t hash = 1469598103934665603ULL; long runs = 0; int64_t simUs = 0; uint64_t fired[FK_MAX] = {0}; uint64_t events = 0;
	std::set<std::string> probes;
	uint64_t trace = 0;
	RunOut run(const Scenario &s);
	void add(const RunOut &o);
};
struct Prop {
	std::string id;
	std::function<void(Rng &, Scenario &, int tier)> gen;
	std::function<Verdict(const Scenario &, Ctx &)> check;
};
std::vector<Prop> engineProps();
std::string clsOf(const RunOut &o);
bool instanceOk(const Inst &I);
}
