#pragma once
#include <cstdint>
#include <cstdio>
namespace vsim {
struct SatCfg { uint64_t seed = 1; int phaseMode = 0; /*0 all false,1 all true,2 random,3..17 bias k/20*/ int orderMode = 0; int savePhase = 1; long intAt = -1; long intLen = 1000000; long maxSolves = 1000; };
extern SatCfg SATC;
void satBegin(const SatCfg &c);
}
