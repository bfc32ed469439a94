// Seeded PRNG: every choice the simulator makes is drawn from one of these.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace vsim {
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
	uint64_t next() {                       // splitmix64
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return b <= a ? a : a + (int)below((uint64_t)(b - a + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
	template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	template<class T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; i--) { size_t j = below(i); std::swap(v[i-1], v[j]); } }
	Rng fork(uint64_t tag) { return Rng(next() ^ (tag * 0xD1342543DE82EF95ULL)); }
};
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
	return h;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
}
