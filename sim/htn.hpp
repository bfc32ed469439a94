// Ground HTN instances: data, text format, generator, reference semantics and plan checker.
#pragma once
#include "rng.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>
namespace vsim {
struct CondEff { std::vector<int> cond; int fact; bool operator==(const CondEff &o) const { return cond == o.cond && fact == o.fact; } };
struct Action { int cost = 1; std::vector<int> pre, add, del; std::vector<CondEff> cadd, cdel; };
struct Method { std::string name; int task = 0; std::vector<int> sub; std::vector<std::pair<int,int>> ord; };
struct Var { int first, last; };
struct Inst {
	std::vector<std::string> facts;
	std::vector<Var> vars;
	std::vector<std::vector<int>> strictMutex, mutex, invariants;
	std::vector<Action> actions;
	std::vector<int> s0, goal;
	std::vector<std::string> tasks;            // actions first
	int nAbs = 0;
	int init = 0;
	std::vector<Method> methods;
	bool isAbs(int t) const { return t >= (int)actions.size(); }
};
std::string toSas(const Inst &I);
bool fromSas(const std::string &txt, Inst &I);   // our own strict reader (replay files, faulted inputs)
void closeUnreachable(Inst &I);                  // drop tasks/methods not reachable from the initial task
bool totallyOrdered(const Inst &I);
bool cyclic(const Inst &I);

struct GenCfg {
	int maxVars = 4, maxActions = 6, maxAbs = 5, maxMethods = 3, maxSub = 4;
	int order = -1;          // -1 random, 0 total, 1 partial, 2 parallel sequences
	int recursion = -1;      // -1 random, 0 none, 1 tail, 2 general
	int maxCost = 4;
	bool unitCost = false;
	int maxArity = 4;        // max subtasks
	bool noZeroCost = false;
	bool bigStates = false;
	bool twins = false;      // actions and methods that differ only in their costs
	bool few = false;        // few tasks, many networks over them
};
Inst genInst(Rng &r, const GenCfg &g);
void addKnownMutexes(Inst &I);                   // mutex groups and invariants that hold in all reachable states
void untidy(Inst &I);                            // lists in any order and with doubled elements, deleted facts that are added again
void addConditional(Inst &I);                    // conditional effects in some problems
bool conditional(const Inst &I);
void dropFalseMutexes(Inst &I);

enum Solv { UNSOLVABLE = 0, SOLVABLE = 1, UNKNOWN = 2 };
struct RefResult { Solv v = UNKNOWN; int optCost = -1; long nodes = 0; bool optKnown = false; bool finite = false; };
RefResult refSolve(const Inst &I, long cap = 60000);
// brute force check of minimal number of actions etc. is not needed

struct PlanStep { int id; std::string task; };
struct Decomp { int id; std::string task, method; std::vector<int> children; };
struct Plan { bool present = false; bool wellFormed = false; std::string why; std::vector<PlanStep> prim; int root = -1; std::vector<Decomp> dec; int count = 0; };
Plan parsePlan(const std::string &out);           // last ==> ... <== block
std::vector<Plan> parseAllPlans(const std::string &out);
// returns "" if valid
std::string checkPlan(const Inst &I, const Plan &p, int *cost = nullptr, bool needGoal = true);
// primitive sequence only
std::string checkPrimSeq(const Inst &I, const std::vector<std::string> &names, int *cost = nullptr);
bool reachableStates(const Inst &I, std::set<std::vector<bool>> &out, size_t cap);
}
