// Seeded generator shared by the drivers
#pragma once
#include <stdint.h>
#include <initializer_list>

namespace hl {

struct prng {
	uint64_t s;
	prng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 77) { for (int i = 0; i < 5; i++) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL >> 11; }
	unsigned operator()(unsigned n) { return n ? next() % n : 0; }
	unsigned range(unsigned a, unsigned b) { return a + (*this)(b - a + 1); }
	bool chance(unsigned pct) { return (*this)(100) < pct; }
	template <typename T> T of(std::initializer_list<T> l) { return l.begin()[(*this)(l.size())]; }
};

} // namespace hl
