// Choice-sequence property-based testing engine.
//
// A case is a byte string.  `Src` turns bytes into structured choices (an
// exhausted source always yields the simplest choice), so that the same case
// function is driven by the seeded random generator, by libFuzzer, by the
// shrinker and by --replay.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Src {
	const uint8_t *p = nullptr;
	size_t n = 0;
	Src() {}
	Src(const uint8_t *d, size_t len) : p(d), n(len) {}
	bool empty() const { return n == 0; }
	uint8_t byte() { if (!n) return 0; n--; return *p++; }
	// uniform-ish in [0, k)
	uint32_t range(uint32_t k) {
		if (k <= 1) return 0;
		if (k <= 256) return byte() % k;
		if (k <= 65536) { uint32_t a = byte(); return ((a << 8) | byte()) % k; }
		uint32_t v = 0;
		for (int i = 0; i < 4; i++) v = (v << 8) | byte();
		return v % k;
	}
	uint32_t between(uint32_t lo, uint32_t hi) { return lo + range(hi - lo + 1); }
	bool chance(uint32_t num, uint32_t den) { return range(den) >= den - num; } // 0 => false
	template <class T> const T &pick(const std::vector<T> &v) { return v[range(v.size())]; }
	// Consume a fixed-width window as an independent source (one operation).
	Src block(size_t w) {
		Src s(p, n < w ? n : w);
		p += s.n; n -= s.n;
		return s;
	}
};

struct Ctx {
	std::string trace;           // readable rendering of the case
	bool nontriv = false;
	bool failed = false;
	std::vector<std::string> tags;
	void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void tag(const std::string &t) { tags.push_back(t); }
	void nontrivial() { nontriv = true; }
};

// Report a violation of the property and end the case.
[[noreturn]] void fail(Ctx &c, const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
// Discard the case (precondition not met).
[[noreturn]] void discard(Ctx &c, const char *why);

struct Facet {
	const char *name;
	void (*run)(Src &, Ctx &);
	size_t hdr;        // fixed header width in bytes
	size_t opw;        // bytes per operation
	size_t maxops;     // maximum number of operations
	long quick;        // generated cases in the quick tier
	long thorough;     // generated cases in the thorough tier
	int batch;         // cases per forked child
};

struct Property {
	const char *id;
	const char *rule;                       // what makes a case non-trivial
	std::vector<const char *> assumptions;
	std::vector<Facet> facets;
};

extern Property the_property;

// quoted printable rendering of arbitrary bytes
std::string q(const std::string &s);
inline std::string q(const char *s) { return s ? q(std::string(s)) : std::string("(null)"); }
// Scratch directory private to the running case; removed afterwards.
std::string scratch();
