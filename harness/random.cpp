// Entropy providers and random generators: what they write, where their output comes from, and what
// happens when the sources of entropy fail. The sources are the shim's (verif_rt).
#include "ref.h"
#include "ArrayTools.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "SecureRandom.h"
#include "IProvider.h"
#include "CryptoException.h"
#include "SecureVector.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include <cmath>
#include <limits>
#include <memory>
#include <mutex>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using namespace verif;

// one source of random bytes behind one interface
struct Gen
{
	virtual ~Gen() {}
	// form 0: whole vector, 1: range of a vector, 2: whole secure vector, 3: range of a secure vector
	virtual void gen(int form, Bytes& v, size_t off, size_t len) = 0;
	virtual void reset() = 0;
	virtual uint16_t n16() = 0; virtual uint32_t n32() = 0; virtual uint64_t n64() = 0;
};
template<class T> struct GenT : Gen
{
	std::unique_ptr<T> p;
	explicit GenT(T* x) : p(x) {}
	void gen(int form, Bytes& v, size_t off, size_t len) override
	{
		if (form < 2) { if (form == 0) p->Generate(v); else p->Generate(v, off, len); }
		else
		{
			SecureVector<uint8_t> s(v.begin(), v.end());
			if (form == 2) p->Generate(s); else p->Generate(s, off, len);
			expect(s.size() == v.size(), "size", "the vector changed its size");
			v.assign(s.begin(), s.end());
		}
	}
	void reset() override { reset_(p.get()); }
	static void reset_(Prng::SecureRandom*) {}
	template<class U> static void reset_(U* q) { q->Reset(); }
	uint16_t n16() override { return p->NextUInt16(); }
	uint32_t n32() override { return p->NextUInt32(); }
	uint64_t n64() override { return p->NextUInt64(); }
};
struct Kind { std::string name; std::function<Gen*()> make; bool provider, shimOnly; size_t weight; };
static std::vector<Kind> kinds()
{
	std::vector<Kind> k;
	for (auto pv : { Providers::ACP, Providers::CSP, Providers::ECP, Providers::RDP, Providers::CJP })
		k.push_back({ "provider " + ProviderConvert::ToName(pv), [pv] { return (Gen*)new GenT<Provider::IProvider>(Helper::ProviderFromName::GetInstance(pv)); }, true, pv == Providers::CSP || pv == Providers::RDP, pv == Providers::CJP ? size_t(40) : pv == Providers::ACP || pv == Providers::ECP ? size_t(4) : size_t(1) });
	for (auto pv : { Providers::CSP, Providers::RDP, Providers::ACP })
		for (auto pr : { Prngs::BCR, Prngs::CSR, Prngs::CSRC512, Prngs::HCR, Prngs::HCRS512 })
		{
			std::string n = PrngConvert::ToName(pr) + "/" + ProviderConvert::ToName(pv);
			k.push_back({ "prng " + n, [pr, pv] { return (Gen*)new GenT<Prng::IPrng>(Helper::PrngFromName::GetInstance(pr, pv)); }, false, pv != Providers::ACP, pv == Providers::ACP ? size_t(6) : size_t(2) });
			k.push_back({ "SecureRandom " + n, [pr, pv] { return (Gen*)new GenT<Prng::SecureRandom>(new Prng::SecureRandom(pr, pv)); }, false, pv != Providers::ACP, pv == Providers::ACP ? size_t(6) : size_t(2) });
		}
	return k;
}
// the jitter provider may refuse to work on a machine whose timer does not suit it
static bool jitter(const Kind& k) { return k.name == "provider CJP"; }

static const char* FORMS[] = { "vector", "vector range", "secure vector", "secure vector range" };

// every byte of the range asked for is written, and none beside it
static void fill(Rng& r, const Kind& k)
{
	rt_reset(); rt_det = r.next() | 1;
	std::unique_ptr<Gen> g;
	std::string e;
	if (outcome([&] { g.reset(k.make()); }, &e) != Returned) { if (!jitter(k)) fail("fill:" + k.name + ":constructor", "threw %s", e.c_str()); return; }
	size_t big = jitter(k) ? 60 : 3000, huge = r.below(12);      // one long request, for sources that are fast
	for (size_t i = 0; i < (jitter(k) ? 3 : 12); ++i)
	{
		int form = (int)r.below(4);
		std::string key = "fill:" + k.name + ":" + FORMS[form];
		bool whole = form == 0 || form == 2;
		size_t len = r.chance(15) ? 0 : r.chance(50) ? r.below(40) : r.chance(30) ? 1000 + r.below(60) : r.below(big);
		if (jitter(k)) len %= 60; else if (i == huge && k.weight <= 2) len = r.range(3900, r.chance(50) ? 9000 : 70000);
		size_t off = whole ? 0 : r.below(50), tail = whole ? 0 : r.below(50);
		if (len == 0 && off == 0 && tail == 0) tail = whole ? 0 : 1;
		Bytes written(len, 0);
		bool done = false;
		for (int run = 0; run < (jitter(k) ? 12 : 8) && !done; ++run)
		{
			Bytes v = r.bytes(off + len + tail), b = v;
			if (outcome([&] { g->gen(form, v, off, len); }, &e) != Returned) { if (!jitter(k)) fail(key, "len %zu off %zu threw %s", len, off, e.c_str()); return; }
			if (v.size() != b.size()) { fail(key, "the size changed"); return; }
			for (size_t j = 0; j < v.size(); ++j)
			{
				bool in = j >= off && j < off + len;
				if (!in && v[j] != b[j]) { fail(key, "byte %zu outside the range [%zu, %zu) was written", j, off, off + len); return; }
				if (in && v[j] != b[j]) written[j - off] = 1;
			}
			done = true; for (auto w : written) if (!w) done = false;
			seen(key, hash(v) ^ len);
		}
		expect(done, key, "bytes of a request for %zu at offset %zu are never written", len, off);
		count("fill");
		// refused requests
		if (!whole)
		{
			Bytes v = r.bytes(20), b = v;
			size_t o = r.chance(40) ? 21 + r.below(50) : r.below(21), l = r.chance(30) ? (size_t)0 - r.below(40) - 1 : (o > 20 ? 0 : 20 - o) + 1 + r.below(30);
			Outcome oc = outcome([&] { g->gen(form, v, o, l); }, &e);
			if (o + l == 0) continue;
			expect(oc == Threw, key + ":refused", "a range [%zu, +%zu) of 20 bytes: %s", o, l, oc == Returned ? "accepted" : e.c_str());
			expect(v == b, key + ":refused", "a refused request wrote to its vector");
			count("refused");
		}
	}
	rt_reset();
}

// output is never repeated: no eight bytes occur twice in everything produced
static void fresh(Rng& r, const std::vector<Kind>& ks)
{
	rt_reset(); rt_det = r.next() | 1;
	std::unordered_set<uint64_t> words;
	std::map<uint64_t, std::string> where;
	uint64_t n = 0;
	for (int round = 0; round < 3; ++round)
		for (auto& k : ks)
		{
			std::unique_ptr<Gen> g; std::string e;
			if (outcome([&] { g.reset(k.make()); }, &e) != Returned) { if (!jitter(k)) fail("fresh:" + k.name, "constructor threw %s", e.c_str()); continue; }
			for (int i = 0; i < 6; ++i)
			{
				Bytes v(jitter(k) ? 16 : i == 0 ? 1024 * (1 + r.below(3)) : 8 * (1 + r.below(200)), 0);
				if (outcome([&] { if (i == 3) g->reset(); g->gen(i % 4, v, 0, v.size()); }, &e) != Returned) { if (!jitter(k)) fail("fresh:" + k.name, "threw %s", e.c_str()); break; }
				for (size_t j = 0; j + 8 <= v.size(); j += 8)
				{
					uint64_t w; memcpy(&w, &v[j], 8);
					if (!words.insert(w).second) { fail("fresh:" + k.name, "eight bytes of output repeat (request %d, position %zu of %zu, %s)", i, j, v.size(), hex(&v[j], 8).c_str()); j = v.size(); }
					++n;
				}
				uint64_t w = g->n64();
				if (!words.insert(w).second) fail("fresh:" + k.name + ":next", "a 64-bit value repeats");
				if (jitter(k) && i == 1) break;
			}
			// the short forms vary
			std::set<uint32_t> s16, s32;
			for (int i = 0; i < (jitter(k) ? 3 : 24); ++i) { s16.insert(g->n16()); s32.insert(g->n32()); }
			if (!jitter(k)) { expect(s16.size() >= 12, "fresh:" + k.name + ":next16", "%zu of 24 values differ", s16.size()); expect(s32.size() >= 23, "fresh:" + k.name + ":next32", "%zu of 24 values differ", s32.size()); }
			seen("fresh:" + k.name, n);
		}
	count("words compared", n);
	rt_reset();
}

// the output follows from the entropy taken: each byte of the seed material changes it
static void sense(Rng& r, const Kind& k)
{
	uint64_t seed = r.next() | 1;
	auto runOnce = [&](int64_t flip, Bytes& out) {
		rt_reset(); rt_det = seed; rt_flip = flip;
		std::unique_ptr<Gen> g(k.make());
		out.assign(1500, 0); g->gen(0, out, 0, out.size());
	};
	Bytes base, again, o;
	std::string e;
	if (outcome([&] { runOnce(-1, base); }, &e) != Returned) { fail("sense:" + k.name, "threw %s", e.c_str()); rt_reset(); return; }
	int64_t total = rt_total;
	runOnce(-1, again);
	expect(again == base, "sense:" + k.name + ":state", "the same entropy gives other output");
	size_t sensitive = 0, tried = 0;
	int64_t step = total > 400 && !cfg.thorough ? 1 + total / 400 : 1;
	for (int64_t i = (int64_t)r.below((uint64_t)step); i < total; i += step)
	{
		runOnce(i, o); ++tried;
		if (o == base) continue;
		// nearly every word of the output differs
		size_t eq = 0; for (size_t j = 0; j + 8 <= o.size(); j += 8) if (memcmp(&o[j], &base[j], 8) == 0) ++eq;
		if (k.provider || eq == 0) ++sensitive; else fail("sense:" + k.name, "a changed entropy byte %lld leaves %zu words of the output as they were", (long long)i, eq);
	}
	seen("sense:" + k.name, hash(base));
	count("entropy bytes inverted", tried);
	// a provider hands out its bytes; a generator is keyed with at least 32
	size_t want = k.provider ? 1500 : 32;
	expect(sensitive * (size_t)step >= want, "sense:" + k.name, "only %zu of %zu entropy bytes tried (of %lld taken) influence the output", sensitive, tried, (long long)total);
	rt_reset();
}

// the sources of entropy go away after n requests, at every n: no output from then on that was not there before
static void closed(Rng& r, const Kind& k)
{
	uint64_t seed = r.next() | 1;
	rt_reset(); rt_det = seed;
	{ std::unique_ptr<Gen> g; std::string e; if (outcome([&] { g.reset(k.make()); Bytes v(64); g->gen(0, v, 0, 64); g->reset(); g->gen(1, v, 0, 64); }, &e) != Returned) { fail("closed:" + k.name, "threw %s without a fault", e.c_str()); return; } }
	int64_t need = rt_requests;
	std::unordered_set<uint64_t> words;
	int64_t step = need > 60 && !cfg.thorough ? 1 + need / 60 : 1;
	for (int64_t n = 0; n < need; n += step)
	{
		rt_reset(); rt_det = seed + 2 * (uint64_t)n + 2; rt_allow = n;
		std::unique_ptr<Gen> g; std::string e; bool threw = false;
		auto step1 = [&](const char* what, const std::function<void()>& f) {
			Outcome oc = outcome(f, &e);
			if (oc == ThrewForeign) fail("closed:" + k.name + ":" + what, "threw something else than a library exception: %s", e.c_str());
			if (oc != Returned) threw = true;
			return oc == Returned;
		};
		auto produce = [&](const char* what, int form) {
			Bytes v(64, 0);
			if (step1(what, [&] { g->gen(form, v, 0, 64); }))
				for (size_t j = 0; j < 64; j += 8) { uint64_t w; memcpy(&w, &v[j], 8); if (w == 0 || !words.insert(w).second) { fail("closed:" + k.name + ":" + what, "output without entropy: %s after %lld of %lld requests", hex(v).c_str(), (long long)n, (long long)need); break; } }
		};
		if (step1("constructor", [&] { g.reset(k.make()); }))
		{
			produce("generate", 0);
			step1("reset", [&] { g->reset(); });
			produce("generate after reset", 3);
		}
		expect(threw, "closed:" + k.name, "entropy failed after %lld of %lld requests and nothing was reported", (long long)n, (long long)need);
		// and it works again
		rt_allow = -1;
		if (g)
		{
			step1("reset", [&] { g->reset(); }); threw = false;
			produce("generate again", 2);
			expect(!threw, "closed:" + k.name + ":again", "still refused after the fault has gone: %s", e.c_str());
		}
		seen("closed:" + k.name, (uint64_t)n); count("entropy failures injected");
	}
	rt_reset();
}

// a source that returns one value only is refused from the second request on
static void stuck(Rng& r, const Kind& k)
{
	rt_reset(); rt_det = r.next() | 1;
	std::unique_ptr<Gen> g(k.make());
	Bytes v(40); g->gen(0, v, 0, 40);
	rt_stuck = 1 + (int)r.below(255);
	size_t given = 0;
	for (int i = 0; i < 8; ++i)
	{
		int form = (int)r.below(4); std::string e;
		Outcome oc = outcome([&] { g->gen(form, v, 0, v.size()); }, &e);
		if (oc == ThrewForeign) fail("stuck:" + k.name, "%s", e.c_str());
		if (oc == Returned) ++given;
		if (oc == Returned && i > 0) fail("stuck:" + k.name + ":" + FORMS[form], "request %d of a stuck source returned %s", i, hex(v).c_str());
	}
	rt_stuck = 0; rt_det = r.next() | 1;
	std::string e;
	expect(outcome([&] { g->gen(0, v, 0, v.size()); }, &e) == Returned, "stuck:" + k.name, "still refused afterwards: %s", e.c_str());
	seen("stuck:" + k.name, hash(v));
	rt_reset();
}

// every bit of a value is as often set as not, whatever the others are
static void bits(const std::string& key, size_t size, const std::function<void(uint8_t*)>& f)
{
	const size_t N = 400;
	std::vector<std::vector<uint8_t>> v(N, std::vector<uint8_t>(size));
	std::string e;
	for (auto& x : v) if (outcome([&] { f(x.data()); }, &e) != Returned) { fail(key, "threw %s", e.c_str()); return; }
	for (size_t a = 0; a < size * 8; ++a)
	{
		size_t ones = 0; for (auto& x : v) ones += x[a / 8] >> a % 8 & 1;
		if (!expect(ones > N / 2 - 90 && ones < N / 2 + 90, key + ":bits", "bit %zu was set %zu times in %zu", a, ones, N)) return;
		for (size_t b = 0; b < a; ++b)
		{
			size_t eq = 0; for (auto& x : v) eq += (x[a / 8] >> a % 8 & 1) == (x[b / 8] >> b % 8 & 1);
			if (!expect(eq > N / 2 - 90 && eq < N / 2 + 90, key + ":bits", "bits %zu and %zu were equal %zu times in %zu", a, b, eq, N)) return;
		}
	}
	seen(key, hash(v[0]) ^ mix(hash(v[N - 1])));
}

// bounded integers stay in bounds and are uniform
template<class T> struct Next
{
	std::string name;
	std::function<T(Prng::SecureRandom&)> all; std::function<T(Prng::SecureRandom&, T)> max; std::function<T(Prng::SecureRandom&, T, T)> range;
};
template<class T> static T any(Rng& r)
{
	typedef std::numeric_limits<T> L;
	switch (r.below(5)) { case 0: return (T)(L::max() - (T)r.below(3)); case 1: return (T)(L::min() + (T)r.below(3)); case 2: return (T)r.below(20); case 3: return (T)((T)1 << r.below(sizeof(T) * 8)); default: return (T)r.next(); }
}
template<class T> static void ranges(Rng& r, const Next<T>& f)
{
	typedef typename std::make_unsigned<T>::type U;
	rt_reset(); rt_det = r.next() | 1;
	Prng::SecureRandom g(r.chance(50) ? Prngs::BCR : Prngs::CSR, Providers::CSP);
	std::string key = "next:" + f.name;
	bits(key, sizeof(T), [&](uint8_t* o) { T x = f.all(g); memcpy(o, &x, sizeof x); });
	for (size_t i = 0; i < reps(20, 200); ++i)
	{
		T a = any<T>(r), b = any<T>(r); std::string e;
		bool two = r.chance(70);
		T lo = two ? b : 0, hi = a;
		bool legal = hi >= 1 && (!two || hi >= lo);
		T v = 0;
		Outcome oc = outcome([&] { v = two ? f.range(g, hi, lo) : f.max(g, hi); }, &e);
		std::string c = strf("(%s%lld, %lld)", two ? "range " : "below ", (long long)lo, (long long)hi);
		seen(key + c, hash(&v, sizeof v));
		if (!legal) { expect(oc == Threw, key + ":refused", "%s: accepted or %s", c.c_str(), e.c_str()); continue; }
		if (oc != Returned) { fail(key, "%s threw %s", c.c_str(), e.c_str()); continue; }
		expect(v >= lo && (two ? v <= hi : v < hi), key + ":bounds", "%s returned %lld", c.c_str(), (long long)v);
		// uniform: counts in up to 16 equal parts
		U size = two ? (U)((U)hi - (U)lo + 1) : (U)hi;                   // 0: all values
		double span = size == 0 ? std::pow(2.0, sizeof(T) * 8) : (double)size;
		size_t parts = span < 16 ? (size_t)span : 3 + r.below(14);
		if (parts < 2) continue;
		size_t N = parts * (cfg.thorough ? 1000 : 150);
		std::vector<double> cnt(parts, 0), width(parts, 0);
		// part p holds the offsets d with floor(d * parts / span) == p; exact widths for small spans
		for (size_t j = 0; j < N; ++j)
		{
			T x = two ? f.range(g, hi, lo) : f.max(g, hi);
			if (!(x >= lo && (two ? x <= hi : x < hi))) { fail(key + ":bounds", "%s returned %lld", c.c_str(), (long long)x); return; }
			U d = (U)((U)x - (U)lo);
			size_t p = (size_t)((long double)d * parts / (long double)span); if (p >= parts) p = parts - 1;
			++cnt[p];
		}
		if (span < 4096) for (U d = 0; (double)d < span; ++d) ++width[(size_t)((long double)d * parts / (long double)span)]; else for (auto& w : width) w = span / parts;
		double chi = 0; for (size_t p = 0; p < parts; ++p) { double ex = N * width[p] / span; chi += (cnt[p] - ex) * (cnt[p] - ex) / ex; }
		double k = (double)parts - 1, limit = k + 8 * std::sqrt(2 * k) + 25;
		expect(chi < limit, key + ":uniform", "%s: chi-square %.1f over %zu parts of %zu samples (limit %.1f)", c.c_str(), chi, parts, N, limit);
		count("uniformity tests");
	}
	rt_reset();
}
static void fills(Rng& r)
{
	rt_reset(); rt_det = r.next() | 1;
	Prng::SecureRandom g(Prngs::BCR, Providers::CSP);
	auto one = [&](auto v, const char* key) {
		size_t n = 1 + r.below(700), off = r.below(9), tail = r.below(9);
		v.assign(off + n + tail, 0);
		std::string e;
		if (outcome([&] { g.Fill(v, off, n); }, &e) != Returned) { fail(std::string("fillw:") + key, "threw %s", e.c_str()); return; }
		size_t zeros = 0, outside = 0;
		for (size_t i = 0; i < v.size(); ++i) if (i >= off && i < off + n) zeros += v[i] == 0; else outside += v[i] != 0;
		expect(outside == 0 && zeros <= 3, std::string("fillw:") + key, "%zu elements at %zu: %zu left at zero, %zu written outside", n, off, zeros, outside);
		auto b = v;
		size_t o = r.chance(50) ? v.size() + 1 + r.below(5) : r.below(v.size()), l = r.chance(40) ? (size_t)0 - r.below(o + 1) : v.size() + 1 - std::min(o, v.size());
		if (l == 0) l = v.size() + 1;
		Outcome oc = outcome([&] { g.Fill(v, o, l); }, &e);
		expect(oc == Threw && b == v, std::string("fillw:") + key + ":refused", "%zu elements at %zu of %zu: %s", l, o, v.size(), oc == Threw ? "wrote" : e.c_str());
		seen(std::string("fillw:") + key, hash(v.data(), v.size() * sizeof v[0]));
	};
	one(std::vector<uint16_t>(), "16"); one(SecureVector<uint16_t>(), "secure 16"); one(std::vector<uint32_t>(), "32"); one(std::vector<uint64_t>(), "64");
	rt_reset(); rt_det = r.next() | 1;
	bits("next:NextChar", 1, [&](uint8_t* o) { *o = (uint8_t)g.NextChar(); }); bits("next:NextUChar", 1, [&](uint8_t* o) { *o = g.NextUChar(); });
	bits("next:NextDouble", 8, [&](uint8_t* o) { double d = g.NextDouble(); memcpy(o, &d, 8); });
	{ size_t n = r.range(1, 3000); std::vector<uint8_t> a = g.Generate(n), b = g.Generate(n); if (expect(a.size() == n && b.size() == n, "next:Generate", "%zu and %zu bytes instead of %zu", a.size(), b.size(), n) && n > 7) expect(a != b && std::count(a.end() - 8, a.end(), 0) < 6, "next:Generate", "the same %zu bytes twice, or none", n); }
	// a shuffle keeps the elements, and every element reaches every place
	size_t n = r.below(10); std::vector<uint32_t> base(n); for (size_t i = 0; i < n; ++i) base[i] = (uint32_t)(i / 2);
	std::vector<uint32_t> v = base; std::string e;
	rt_reset();
	if (outcome([&] { Tools::ArrayTools::RandomShuffle(v); }, &e) != Returned) fail("shuffle", "threw %s for %zu elements", e.c_str(), n);
	else { std::sort(v.begin(), v.end()); expect(v == base, "shuffle", "the elements changed"); }
	if (r.chance(20))
	{
		n = 4; std::vector<std::vector<int>> at(n, std::vector<int>(n, 0));
		for (int i = 0; i < 120; ++i) { v = { 0, 1, 2, 3 }; if (outcome([&] { Tools::ArrayTools::RandomShuffle(v); }) != Returned) break; for (size_t j = 0; j < n; ++j) ++at[v[j] & 3][j]; }
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) expect(at[i][j] > 2 && at[i][j] < 80, "shuffle:uniform", "element %zu came to place %zu %d times in 120", i, j, at[i][j]);
	}
	seen("shuffle", n);
}

void cases()
{
	auto ks = kinds();
	if (part("fill")) for (auto& k : ks) for (size_t i = 0, n = 1 + reps(8, 200) / k.weight; i < n; ++i) run(strf("fill-%s#%zu", k.name.c_str(), i), [k](Rng& r) { fill(r, k); });
	if (part("fresh")) for (size_t i = 0; i < 1 + reps(0.4, 6); ++i) run(strf("fresh#%zu", i), [ks](Rng& r) { fresh(r, ks); });
	if (part("sense")) for (auto& k : ks) if (k.shimOnly) for (size_t i = 0; i < reps(0.4, 2); ++i) run(strf("sense-%s#%zu", k.name.c_str(), i), [k](Rng& r) { sense(r, k); });
	if (part("closed")) for (auto& k : ks) if (!jitter(k)) for (size_t i = 0; i < reps(0.2, 2); ++i) run(strf("closed-%s#%zu", k.name.c_str(), i), [k](Rng& r) { closed(r, k); });
	if (part("closed")) for (auto& k : ks) if (k.provider && k.shimOnly) for (size_t i = 0; i < reps(4, 40); ++i) run(strf("stuck-%s#%zu", k.name.c_str(), i), [k](Rng& r) { stuck(r, k); });
	if (part("next"))
	{
		typedef Prng::SecureRandom S;
#define NEXT(T, N) for (size_t i = 0; i < reps(1, 4); ++i) run(strf("next-" #N "#%zu", i), [](Rng& r) { Next<T> f{ #N, [](S& s) { return s.N(); }, [](S& s, T m) { return s.N(m); }, [](S& s, T hi, T lo) { return s.N(hi, lo); } }; ranges(r, f); });
		NEXT(int16_t, NextInt16) NEXT(uint16_t, NextUInt16) NEXT(int32_t, NextInt32) NEXT(uint32_t, NextUInt32) NEXT(int64_t, NextInt64) NEXT(uint64_t, NextUInt64)
		for (size_t i = 0; i < reps(20, 300); ++i) run(strf("fills#%zu", i), [](Rng& r) { fills(r); });
	}
}
