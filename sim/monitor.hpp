// Observes the search of a simulated run at the calls between its parts (link-time wrappers) and compares every
// step with the reference semantics.
#pragma once
#include "htn.hpp"
namespace vsim {
extern const Inst *monInst; extern int monMask, monAdm, monGCost;
enum { MON_DUP = 1, MON_STEP = 2, MON_HEUR = 4 };
extern long monCap; extern bool monPresent;
void monBegin();
// the sub-problem that starts in this state with this network
Inst subInstance(const Inst &I, const std::vector<bool> &state, const std::vector<int> &labels, const std::vector<std::pair<int,int>> &ord);
// metric 1: action costs, 2: number of actions and decompositions, 3: action costs and number of decompositions
Inst withMetric(const Inst &I, int metric, int freeTask = -1);
}
