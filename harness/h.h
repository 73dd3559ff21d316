// Common machinery of the harnesses: seeded cases shared out over worker processes,
// failure lines for the driver (check.py), and a record of what was observed.
#pragma once
#include "verif_rt.h"
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh
{
	typedef std::vector<uint8_t> Bytes;

	uint64_t mix(uint64_t x);
	uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
	inline uint64_t hash(const std::string& s) { return hash(s.data(), s.size()); }
	inline uint64_t hash(const Bytes& s) { return hash(s.data(), s.size()); }

	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed) : s(mix(seed ^ 0x9E3779B97F4A7C15ULL)) {}
		uint64_t next();
		// uniform in [0, n)
		uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
		// uniform in [lo, hi]
		uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
		bool chance(unsigned pct) { return below(100) < pct; }
		Bytes bytes(size_t n);
		template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
		// a length biased towards the edges of the given block size
		size_t length(size_t block, size_t maxBlocks);
	};

	struct Cfg
	{
		uint64_t seed = 1;
		bool thorough = false;
		double scale = 1;
		std::string part;                    // which part of the harness to run ("" = all)
		std::string only;                    // replay: one case
		unsigned limit = 120;                // seconds per case, then a hang is reported
	};
	extern Cfg cfg;

	// number of iterations, scaled by the tier
	inline size_t reps(size_t quick, size_t thorough) { double n = (cfg.thorough ? thorough : quick) * cfg.scale; return n < 1 ? 1 : (size_t)n; }

	// Runs one case if it falls to this worker. Its randomness depends on the seed and the name alone.
	// The group of a case (name up to the '#') identifies an unexpected exception or a crash in it.
	void run(const std::string& name, const std::function<void(Rng&)>& f);
	bool part(const char* p);

	// reports that the property does not hold; the key names what fails, independently of the seed
	void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// one evaluation of the oracle; the signature says what was observed (inputs and outcome)
	void seen(uint64_t signature);
	inline void seen(const std::string& what, uint64_t h) { seen(mix(hash(what) ^ mix(h))); }
	void count(const std::string& what, uint64_t n = 1);
	void sample(const std::string& s);

	std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	std::string hex(const uint8_t* p, size_t n, size_t max = 48);
	inline std::string hex(const Bytes& b, size_t max = 48) { return hex(b.data(), b.size(), max); }
	Bytes unhex(const std::string& s);

	// equal? otherwise report where they differ
	bool same(const std::string& key, const Bytes& got, const Bytes& want, const std::string& ctx);
	template<class V> bool sameV(const std::string& key, const V& got, const Bytes& want, const std::string& ctx) { return same(key, Bytes(got.begin(), got.end()), want, ctx); }
	bool expect(bool cond, const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

	enum Outcome { Returned, Threw, ThrewForeign };
	// runs f and tells whether it threw; e receives what was thrown
	Outcome outcome(const std::function<void()>& f, std::string* e = nullptr);
}

// the harness' cases
void cases();
