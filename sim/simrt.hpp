// Simulation runtime: owns every source of nondeterminism of the process under test.
// The engine (or CUDD) is linked unmodified; malloc/free, clocks, rand, read/write, system and
// the SAT solver interface are defined by the simulator binary and so replace the real ones.
#pragma once
#include "rng.hpp"
#include <cstdint>
#include <cstddef>
namespace vsim {
enum FaultKind { FK_ALLOC = 0, FK_READ_SHORT, FK_READ_EINTR, FK_READ_EIO, FK_TRUNC, FK_FLIP, FK_WRITE_SHORT, FK_WRITE_EINTR, FK_WRITE_ENOSPC, FK_WRITE_EIO,
	FK_CLOCK_JUMP_FWD, FK_CLOCK_JUMP_BACK, FK_CLOCK_STALL, FK_SOLVER_INT, FK_SOLVER_MODEL, FK_PEER_CRASH, FK_PEER_NOPLAN, FK_PEER_TORN, FK_PEER_STALE, FK_PEER_LATE, FK_PEER_MISSING,
	FK_HEAP_LAYOUT, FK_HEAP_GARBAGE, FK_RAND, FK_TERMINATE, FK_TIMEOUT, FK_MEMLIMIT, FK_LIVELIMIT, FK_REORDER, FK_GC, FK_THREAD_SWITCH, FK_OPEN_FAIL, FK_LOST, FK_MAX };
extern const char *faultName[FK_MAX];

struct Shared {                 // lives in a MAP_SHARED page: survives the child
	uint64_t traceHash, events;
	uint64_t allocs, frees, liveBlocks, liveBytes, peakBytes;
	uint64_t clockReads; int64_t simStartUs, simEndUs, simSpanUs;
	uint64_t randCalls, srandCalls, reads, writes, bytesRead, bytesWritten, systems, solves;
	uint64_t fired[FK_MAX];
	uint64_t probes[16];
	uint64_t crossBlocks;
	uint64_t afterLimitReads; uint64_t allocBytes; uint64_t snapWork; int snapTaken;
	char note[512];
	int budgetHit, oom;
	enum { SITES = 4096 }; int siteN; uintptr_t siteAddr[SITES]; uint32_t siteCnt[SITES];      // code places that allocate, in the order of their first allocation
};
extern Shared *SH;

struct SimCfg {
	// heap seam
	int heapPolicy = 0;         // 0 ascending addresses, 1 LIFO reuse, 2 random slot, 3 descending addresses
	uint64_t heapSeed = 1;
	int heapFill = 0;           // 0 zero, 1 seeded garbage, 2 0xFF bytes, 3 seeded small ints, 4: zero only
	long allocFailAt = -1;      // 0-based index (counted from run start) of the first failing allocation
	long allocFailLen = 1;      // how many allocations in a row fail (-1: all from then on)
	long allocFailMin = 0;      // only allocations of at least this many bytes are counted / fail
	int siteCount = 0; long allocFailSite = 0, allocFailOcc = 0;      // count allocations by code place; fail the n-th one of a place
	long memCap = 700L << 20;
	long allocBudget = 40000000; long byteBudget = 1500000000L;   // effort bounds: the run stops and decides nothing
	// clock seam (microseconds)
	int64_t clockStart = 1700000000000000LL;
	int64_t clockStep = 100; uint64_t clockSeed = 1; int clockMode = 0;   // 0 fixed step, 1 jittered step, 2 bursts/stalls
	long jumpAt[4] = {-1,-1,-1,-1}; int64_t jumpBy[4] = {0,0,0,0};
	int64_t limitUs = -1;       // if >=0: count clock reads made after start+limit
	// rand seam
	int randMode = 0;           // 0 seeded stream, 1 constant 0, 2 constant RAND_MAX, 3 alternating, 4 slow counter
	// input stream
	uint64_t inIno = 0, inDev = 0;
	uint64_t readSeed = 0; int readShort = 0;       // 0 whole, n>0: at most n bytes per read
	long readEintrAt = -1; int readEintrLen = 1; long readEioAt = -1;
	// output files
	long writeCap = -1;         // bytes until the disk is full
	long writeEioAt = -1; long writeEintrAt = -1; int writeShort = 0;
	long tmpNull = 0;
};
extern SimCfg CFG;
void rtInit();                       // once, before anything: reserves regions, maps Shared
void rtBegin(const SimCfg &c);       // in the child: switch to the run heap and the simulated clock
void rtPause();                      // back to the passive (parent) heap for allocations
void rtResume();
void rtLive();
void fire(FaultKind k, uint64_t arg = 0);
void event(uint64_t tag, uint64_t a = 0, uint64_t b = 0);
extern bool rtActive;
void clockAdvance(int64_t us);
int64_t clockNow();
}
