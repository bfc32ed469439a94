#include <new>
#include "simrt.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <unistd.h>

namespace vsim {
const char *faultName[FK_MAX] = {"alloc_failure","read_short","read_eintr","read_eio","input_truncated","input_bit_flip","write_short","write_eintr","write_enospc","write_eio",
	"clock_jump_forward","clock_jump_back","clock_stall","solver_interrupted","solver_model_choice","peer_crash","peer_no_plan","peer_torn_plan","peer_stale_file","peer_slow","peer_missing",
	"heap_layout","heap_garbage","rand_stream","termination_requested","time_limit_hit","memory_limit","live_node_limit","reordering","garbage_collection","thread_switch","open_failure","lost_write"};
Shared *SH;
SimCfg CFG;
bool rtActive = false;
static Rng heapRng(1), clockRng(1), readRng(1), randRng(1);
static int64_t nowUs; static long clockReads, readCalls, writeCalls, randCalls; static long written;

void event(uint64_t tag, uint64_t a, uint64_t b) {
	if (!SH) return;
	uint64_t v[3] = {tag, a, b}; SH->traceHash = fnv(v, sizeof v, SH->traceHash); SH->events++;
}
void fire(FaultKind k, uint64_t arg) { if (SH) { SH->fired[k]++; event(0xFA00 + k, arg); } }

// ------------------------------------------------------------------ heap
// Region A: the simulator's own heap. Region B: the heap of one simulated run, empty at fork.
static char *const A0 = (char *)0x100000000000, *const B0 = (char *)0x200000000000, *const M0 = (char *)0x300000000000;
static const size_t ASZ = 8UL << 30, BSZ = 16UL << 30, MSZ = 4UL << 30;
static const int NC = 64;                    // classes of 16 bytes up to 1024
static const uint32_t FREECAP = (uint32_t)(MSZ / 2 / NC / 4);   // capacity of one free list
struct Hdr { uint32_t size, magic; uint64_t big; };    // 16 bytes in front of every block
static const uint32_t MAG = 0xA110C8ED, DEAD = 0xDEADF4EE;
struct Heap {
	char *base, *cur, *lim, *top;            // top: descending bump
	uint32_t *freeIdx[NC]; uint32_t nfree[NC];           // slot offsets /16
	void *bigFree[48];
};
static Heap HA, HB; static bool inited = false; static bool useB = false;
static void *metaCur;
static void heapSetup(Heap &h, char *b, size_t sz, char *meta, size_t msz) {
	memset(&h, 0, sizeof h); h.base = h.cur = b; h.lim = b + sz; h.top = h.lim;
	size_t per = msz / NC; for (int i = 0; i < NC; i++) h.freeIdx[i] = (uint32_t *)(meta + per * i);
}
static void earlyInit() {
	if (inited) return; inited = true;
	auto mp = [](char *p, size_t n) { void *q = mmap(p, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (q != p) { const char m[] = "simrt: cannot map heap\n"; (void)!::syscall(SYS_write, 2, m, sizeof m - 1); _exit(90); } };
	mp(A0, ASZ); mp(B0, BSZ); mp(M0, MSZ);
	heapSetup(HA, A0, ASZ, M0, MSZ / 2); heapSetup(HB, B0, BSZ, M0 + MSZ / 2, MSZ / 2);
}
static inline int bigClass(size_t n) { return 64 - __builtin_clzl(n - 1); }
static void *takeSmall(Heap &h, int c, int policy) {
	uint32_t &n = h.nfree[c]; uint32_t *f = h.freeIdx[c]; size_t bs = (size_t)(c + 1) * 16 + 16;
	if (n == 0) {
		int cnt = 64; size_t tot = bs * cnt; if (h.cur + tot > h.top) return nullptr;
		char *p; if (policy == 3) { h.top -= (tot + 15) & ~15UL; p = h.top; } else { p = h.cur; h.cur += (tot + 15) & ~15UL; }
		// LIFO pop order: lowest address first for 0/1, highest first for 3
		for (int i = 0; i < cnt; i++) { int k = policy == 3 ? i : cnt - 1 - i; f[n++] = (uint32_t)((p + bs * k - h.base) / 16); }
	}
	uint32_t i = policy == 2 ? (uint32_t)heapRng.below(n) : n - 1;
	uint32_t v = f[i]; f[i] = f[n - 1]; n--;
	return h.base + (size_t)v * 16;
}
static void *rawAlloc(size_t n, size_t align, bool zero, bool *fresh) {
	earlyInit();
	Heap &h = useB ? HB : HA; int policy = useB ? CFG.heapPolicy : 0;
	if (n == 0) n = 1;
	if (n > (1UL << 34)) { errno = ENOMEM; return nullptr; }
	if (fresh) *fresh = false;
	char *blk; size_t cap;
	if (n <= 1024 && align <= 16) {
		int c = (int)((n + 15) / 16) - 1; blk = (char *)takeSmall(h, c, policy); cap = (size_t)(c + 1) * 16;
		if (!blk) { errno = ENOMEM; return nullptr; }
		Hdr *d = (Hdr *)blk; d->size = (uint32_t)n; d->magic = MAG; d->big = useB ? SH->allocs : 0; blk += 16;
		if (zero) memset(blk, 0, n);
	} else {
		int bc = bigClass(n < 1024 ? 1025 : n); cap = 1UL << bc;
		if (align > 16) cap += align;
		if (align <= 16 && h.bigFree[bc]) { blk = (char *)h.bigFree[bc]; h.bigFree[bc] = *(void **)(blk + 16); if (zero) memset(blk + 16, 0, n); }
		else {
			size_t tot = cap + 16; if (h.cur + tot > h.top) { errno = ENOMEM; return nullptr; }
			if (policy == 3) { h.top -= tot; h.top = (char *)((size_t)h.top & ~15UL); blk = h.top; } else { blk = h.cur; h.cur += tot; }
			if (fresh) *fresh = true;
		}
		Hdr *d = (Hdr *)blk; d->magic = MAG; d->size = 0xFFFFFFFF; d->big = n; blk += 16;
		if (align > 16) { size_t a = ((size_t)blk + align - 1) & ~(align - 1); if ((char *)a != blk) { Hdr *e = (Hdr *)(a - 16); e->size = 0xFFFFFFFE; e->magic = MAG; e->big = n; blk = (char *)a; } }
	}
	return blk;
}
static inline size_t blkSize(Hdr *d) { return d->size >= 0xFFFFFFFD ? d->big : d->size; }
static bool inB(void *p) { return (char *)p >= B0 && (char *)p < B0 + BSZ; }
static bool inA(void *p) { return (char *)p >= A0 && (char *)p < A0 + ASZ; }
static void fill(void *p, size_t n) {
	if (n > (4UL << 20)) return;   // very large blocks keep the kernel's zero pages (they are never reused)
	if (n > 65536) n = 65536;
	switch (CFG.heapFill) {
		case 1: { uint64_t x = heapRng.next(); uint64_t *q = (uint64_t *)p; size_t k = n / 8; for (size_t i = 0; i < k; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; q[i] = x; } memset((char *)p + k * 8, (int)(x & 255), n - k * 8); break; }
		case 2: memset(p, 0xFF, n); break;
		case 3: { uint32_t *q = (uint32_t *)p; uint32_t x = (uint32_t)heapRng.next(); size_t k = n / 4; for (size_t i = 0; i < k; i++) { x = x * 1664525u + 1013904223u; q[i] = (x >> 16) & 7; } memset((char *)p + k * 4, 1, n - k * 4); break; }
		default: memset(p, 0, n);
	}
}
static long abortAt = -1;
static uintptr_t siteNow;      // who allocates
static bool accountAlloc(size_t n) {      // false: this allocation fails
	long ix = (long)SH->allocs++; if (ix + 1 == abortAt) abort();   // debugging aid
	SH->allocBytes += n; if ((long)SH->allocs > CFG.allocBudget || (long)SH->allocBytes > CFG.byteBudget) { SH->budgetHit = 1; syscall(SYS_exit_group, 97); }
	if (CFG.allocFailAt >= 0 && (long)n >= CFG.allocFailMin) {
		if (CFG.allocFailMin > 0) ix = (long)SH->probes[15]++;
		if (ix >= CFG.allocFailAt && (CFG.allocFailLen < 0 || ix < CFG.allocFailAt + CFG.allocFailLen)) { fire(FK_ALLOC, ix); errno = ENOMEM; return false; }
	}
	if (CFG.siteCount || CFG.allocFailSite) {
		uintptr_t a = siteNow; siteNow = 0;
		if (CFG.siteCount && a) { static int slot[8192]; size_t h = (a * 0x9E3779B97F4A7C15ULL) >> 51; while (slot[h] && SH->siteAddr[slot[h] - 1] != a) h = (h + 1) & 8191; if (!slot[h] && SH->siteN < Shared::SITES) { slot[h] = ++SH->siteN; SH->siteAddr[slot[h] - 1] = a; SH->siteCnt[slot[h] - 1] = 0; } if (slot[h]) SH->siteCnt[slot[h] - 1]++; }
		if (CFG.allocFailSite && a == (uintptr_t)CFG.allocFailSite) { static long seen; long k = seen++; if (k >= CFG.allocFailOcc && (CFG.allocFailLen < 0 || k < CFG.allocFailOcc + CFG.allocFailLen)) { fire(FK_ALLOC, k); errno = ENOMEM; return false; } }
	}
	if ((long)(SH->liveBytes + n) > CFG.memCap) { SH->oom = 1; errno = ENOMEM; return false; }
	SH->liveBlocks++; SH->liveBytes += n; if (SH->liveBytes > SH->peakBytes) SH->peakBytes = SH->liveBytes;
	return true;
}
static void *doAlloc(size_t n, size_t align, bool zero) {
	if (useB && rtActive && !accountAlloc(n)) return nullptr;
	bool fresh; void *p = rawAlloc(n, align, zero, &fresh);
	if (p && useB && rtActive && !zero && n) fill(p, n);
	return p;
}
static void doFree(void *p) {
	if (!p) return;
	Hdr *d = (Hdr *)((char *)p - 16);
	if (!inA(p) && !inB(p)) return;                // not ours (ld.so's early blocks)
	if (d->magic != MAG) {
		if (rtActive && useB) { snprintf(SH->note, sizeof SH->note, "%s", d->magic == DEAD ? "double free" : "invalid free"); syscall(SYS_exit_group, 96); }
		return;
	}
	size_t n = blkSize(d); bool b = inB(p);
	Heap &h = b ? HB : HA;
	if (b) { SH->liveBlocks--; SH->liveBytes -= n; } if (b && rtActive) { SH->frees++; if (n <= 4096) { if (CFG.heapFill) fill(p, n); } }
	d->magic = DEAD;
	if (d->size < 0xFFFFFFFD) { int c = (int)(((d->size ? d->size : 1) + 15) / 16) - 1; if (h.nfree[c] < FREECAP) h.freeIdx[c][h.nfree[c]++] = (uint32_t)(((char *)d - h.base) / 16); }   // a full list drops the block
	else if (d->size == 0xFFFFFFFF) { size_t bb = n < 1024 ? 1025 : n; int bc = bigClass(bb); if (bb > (1UL << 22)) return; *(void **)p = h.bigFree[bc]; h.bigFree[bc] = d; }
}
static void *doRealloc(void *p, size_t n) {
	if (!p) return doAlloc(n, 16, false);
	if (n == 0) { doFree(p); return nullptr; }
	Hdr *d = (Hdr *)((char *)p - 16); size_t o = (inA(p) || inB(p)) ? blkSize(d) : n;
	void *q = doAlloc(n, 16, false); if (!q) return nullptr;
	memcpy(q, p, o < n ? o : n); doFree(p); return q;
}

// ------------------------------------------------------------------ clock
int64_t clockNow() { return nowUs; }
void clockAdvance(int64_t us) { nowUs += us; if (SH) SH->simEndUs = nowUs; }
static int64_t readClock() {
	long k = clockReads++; SH->clockReads++;
	int64_t st = CFG.clockStep;
	if (CFG.clockMode == 1) st = (int64_t)clockRng.below((uint64_t)(2 * CFG.clockStep) + 1);
	else if (CFG.clockMode == 2) { if (clockRng.chance(1, 2)) { st = 0; fire(FK_CLOCK_STALL, k); } else st = CFG.clockStep * 2; }
	nowUs += st;
	for (int i = 0; i < 4; i++) if (CFG.jumpAt[i] == k) { nowUs += CFG.jumpBy[i]; fire(CFG.jumpBy[i] < 0 ? FK_CLOCK_JUMP_BACK : FK_CLOCK_JUMP_FWD, k); }
	SH->simEndUs = nowUs; { int64_t sp = nowUs - SH->simStartUs; if (sp > SH->simSpanUs) SH->simSpanUs = sp; }
	if (CFG.limitUs >= 0 && nowUs - SH->simStartUs > CFG.limitUs) SH->afterLimitReads++;
	event(0xC10C, nowUs, k);
	return nowUs;
}

void rtInit() {
	earlyInit();
	SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(SH, 0, sizeof *SH); if (getenv("SIM_ABORT_AT")) abortAt = atol(getenv("SIM_ABORT_AT"));
}
void rtBegin(const SimCfg &c) {
	CFG = c; heapRng = Rng(c.heapSeed); clockRng = Rng(c.clockSeed); readRng = Rng(c.readSeed); randRng = Rng(c.heapSeed ^ 0x77);
	nowUs = c.clockStart; clockReads = readCalls = writeCalls = randCalls = 0; written = 0;
	memset(SH, 0, sizeof *SH); SH->simStartUs = SH->simEndUs = nowUs; SH->traceHash = 1469598103934665603ULL;
	if (c.heapPolicy) fire(FK_HEAP_LAYOUT, c.heapPolicy);
	if (c.heapFill) fire(FK_HEAP_GARBAGE, c.heapFill);
	if (c.randMode) fire(FK_RAND, c.randMode);
	useB = true; rtActive = true;
}
// debugging aid: the allocations that are still live, by number
void rtLive() { fprintf(stderr, "live:"); for (char *p = B0; p < HB.cur; p += 16) { Hdr *d = (Hdr *)p; if (d->magic == MAG && d->size < 2048) fprintf(stderr, " #%lu(%u)", (unsigned long)d->big, d->size); } fprintf(stderr, "\n"); }
void rtPause() { useB = false; rtActive = false; }
void rtResume() { useB = true; rtActive = true; }
}
using namespace vsim;

void *operator new(size_t n) { siteNow = (uintptr_t)__builtin_return_address(0); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { siteNow = (uintptr_t)__builtin_return_address(0); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

extern "C" {
void *malloc(size_t n) { if (!siteNow) siteNow = (uintptr_t)__builtin_return_address(0); void *p = doAlloc(n, 16, false); siteNow = 0; return p; }
void free(void *p) { doFree(p); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } siteNow = (uintptr_t)__builtin_return_address(0); void *p = doAlloc(n, 16, true); siteNow = 0; return p; }
void *realloc(void *p, size_t n) { siteNow = (uintptr_t)__builtin_return_address(0); void *q = doRealloc(p, n); siteNow = 0; return q; }
void *reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return doRealloc(p, n); }
void *memalign(size_t al, size_t n) { return doAlloc(n, al, false); }
void *aligned_alloc(size_t al, size_t n) { return doAlloc(n, al, false); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = doAlloc(n, al, false); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void *p) { return p ? blkSize((Hdr *)((char *)p - 16)) : 0; }

// a fresh block obtained from calloc is zero already: skip the engine's 128 MB "table[i] = nullptr" loop
void *__real_memset(void *p, int v, size_t n);
void *__wrap_memset(void *p, int v, size_t n) {
	if (v == 0 && n > (16UL << 20) && inB(p)) {
		Hdr *d = (Hdr *)((char *)p - 16);
		if (d->magic == MAG && d->size == 0xFFFFFFFF && d->big == n) { d->size = 0xFFFFFFFD; return p; }   // first clearing of a fresh block
	}
	return __real_memset(p, v, n);
}

int gettimeofday(struct timeval *tv, void *) {
	if (!rtActive) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
	int64_t t = readClock(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
	if (!rtActive) return (int)syscall(SYS_clock_gettime, id, ts);
	int64_t t = readClock(); ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
}
time_t time(time_t *o) {
	if (!rtActive) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
	time_t t = readClock() / 1000000; if (o) *o = t; return t;
}
clock_t clock(void) {
	if (!rtActive) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
	return (clock_t)(readClock() - SH->simStartUs);
}
int getrusage(int who, struct rusage *ru) __THROW {
	if (!rtActive) return (int)syscall(SYS_getrusage, who, ru);
	memset(ru, 0, sizeof *ru); int64_t t = readClock() - SH->simStartUs; ru->ru_utime.tv_sec = t / 1000000; ru->ru_utime.tv_usec = t % 1000000; return 0;
}
clock_t times(struct tms *b) __THROW {
	int64_t t = rtActive ? readClock() - SH->simStartUs : 0; if (b) { memset(b, 0, sizeof *b); b->tms_utime = t / 10000; } return t / 10000;
}

static uint64_t randState = 1;
void srand(unsigned s) { randState = s * 0x9E3779B97F4A7C15ULL + 1; if (SH) SH->srandCalls++; if (rtActive) event(0x5EED, s); }
void srandom(unsigned s) __THROW { srand(s); }
int rand(void) {
	if (SH) SH->randCalls++;
	long k = randCalls++;
	if (rtActive) switch (CFG.randMode) {
		case 1: return 0;
		case 2: return RAND_MAX;
		case 3: return (k & 1) ? RAND_MAX : 0;
		case 4: return (int)(k & 0x7fffffff);
	}
	uint64_t z = (randState += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
	return (int)(z & 0x7fffffff);
}
long random(void) __THROW { return rand(); }

static ssize_t sysread(int fd, void *b, size_t n) { ssize_t r = syscall(SYS_read, fd, b, n); return r; }
ssize_t read(int fd, void *buf, size_t n) {
	if (!rtActive || fd < 3) return sysread(fd, buf, n);
	struct stat st; if (CFG.inIno && (fstat(fd, &st) || st.st_ino != CFG.inIno || st.st_dev != CFG.inDev)) return sysread(fd, buf, n);
	long k = readCalls++; SH->reads++;
	if (CFG.readEintrAt >= 0 && k >= CFG.readEintrAt && k < CFG.readEintrAt + CFG.readEintrLen) { fire(FK_READ_EINTR, k); errno = EINTR; return -1; }
	if (CFG.readEioAt >= 0 && k >= CFG.readEioAt) { fire(FK_READ_EIO, k); errno = EIO; return -1; }
	if (CFG.readShort > 0) { size_t m = 1 + readRng.below(CFG.readShort); if (m < n) { n = m; fire(FK_READ_SHORT, m); } }
	ssize_t r = sysread(fd, buf, n); if (r > 0) SH->bytesRead += r; event(0x4EAD, r, k); return r;
}
static ssize_t simwrite(int fd, const struct iovec *v, int c) {
	long k = writeCalls++; SH->writes++;
	size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
	if (k == CFG.writeEintrAt) { fire(FK_WRITE_EINTR, k); errno = EINTR; return -1; }
	if (CFG.writeEioAt >= 0 && k >= CFG.writeEioAt) { fire(FK_WRITE_EIO, k); errno = EIO; return -1; }
	size_t lim = tot;
	if (CFG.writeShort > 0 && lim > (size_t)CFG.writeShort) { lim = 1 + readRng.below(CFG.writeShort); fire(FK_WRITE_SHORT, lim); }
	if (CFG.writeCap >= 0) { long left = CFG.writeCap - written; if (left <= 0 && tot > 0) { fire(FK_WRITE_ENOSPC, k); errno = ENOSPC; return -1; } if ((long)lim > left) { lim = left; fire(FK_WRITE_SHORT, lim); } }
	size_t done = 0;
	for (int i = 0; i < c && done < lim; i++) { size_t m = v[i].iov_len; if (m > lim - done) m = lim - done; ssize_t r = syscall(SYS_write, fd, v[i].iov_base, m); if (r < 0) return done ? (ssize_t)done : r; done += r; }
	written += done; SH->bytesWritten += done; event(0x3417E, done, k); return done;
}
ssize_t write(int fd, const void *b, size_t n) { if (!rtActive || fd < 3) return syscall(SYS_write, fd, b, n); struct iovec v{(void *)b, n}; return simwrite(fd, &v, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (!rtActive || fd < 3) return syscall(SYS_writev, fd, v, c); return simwrite(fd, v, c); }
}
