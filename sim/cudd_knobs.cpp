// Cudd_Init behind a seam: the engine asks for 16M cache slots and 5M unique-table slots; the
// simulator picks the sizes, so that garbage collection and table resizing really happen.
#include "simrt.hpp"
#include <cstdlib>
struct DdManager;
namespace vsim { unsigned cuddSlots = 0, cuddCache = 0; int cuddReorder = 0; unsigned long cuddMaxMem = 0; int cuddChunk = 0; }
extern "C" {
int ddVerifMemChunk = 1022, ddVerifCheckMask = 0x7ff;      // hook PANDA_VERIF in cuddInt.h
DdManager *__real_Cudd_Init(unsigned, unsigned, unsigned, unsigned, size_t);
void Cudd_AutodynEnable(DdManager *, int);
void Cudd_SetNextReordering(DdManager *, unsigned);
DdManager *__wrap_Cudd_Init(unsigned nv, unsigned nz, unsigned slots, unsigned cache, size_t mem) {
	using namespace vsim;
	ddVerifMemChunk = cuddChunk ? cuddChunk : 1022;
	if (cuddSlots) slots = cuddSlots;
	if (cuddCache) cache = cuddCache;
	DdManager *m = __real_Cudd_Init(nv, nz, slots, cache, cuddMaxMem ? cuddMaxMem : mem);
	if (m && cuddReorder) { Cudd_AutodynEnable(m, cuddReorder); Cudd_SetNextReordering(m, 50); }
	return m;
}
}
