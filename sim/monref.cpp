#include "monitor.hpp"
using namespace std;
namespace vsim {
const Inst *monInst = nullptr; int monMask = 0, monAdm = 0, monGCost = 0; long monCap = 3000;
Inst subInstance(const Inst &I, const vector<bool> &state, const vector<int> &labels, const vector<pair<int,int>> &ord) {
	Inst J = I; J.s0.clear(); for (size_t f = 0; f < state.size(); f++) if (state[f]) J.s0.push_back(f);
	J.init = J.tasks.size(); J.tasks.push_back("__mon[]"); J.nAbs++;
	Method M; M.name = "__mon_method[]"; M.task = J.init; M.sub = labels; M.ord = ord; J.methods.push_back(M);
	return J;
}
Inst withMetric(const Inst &I, int metric, int freeTask) {
	if (metric == 1) return I;
	Inst J = I; int na = I.actions.size(); if (metric == 2) for (auto &a : J.actions) a.cost = 1;
	Action c; c.cost = 1; J.actions.push_back(c); J.tasks.insert(J.tasks.begin() + na, "__cost[]");
	auto up = [&](int t) { return t >= na ? t + 1 : t; };
	J.init = up(J.init);
	for (auto &m : J.methods) { bool fr = m.task == freeTask; m.task = up(m.task); for (int &s : m.sub) s = up(s); if (fr) continue; int k = m.sub.size(); m.sub.push_back(na); for (int i = 0; i < k; i++) m.ord.push_back({k, i}); }
	return J;
}
}
