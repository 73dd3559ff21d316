// Secure memory: the pool never hands a byte to two owners, small secure vectors lie in locked pages, what is
// given back has been erased, and the vector helpers move exactly what they are asked to.
#include "scan.h"
#include "ref.h"
#include "CryptoException.h"
#include "LockingAllocator.h"
#include "MemoryPool.h"
#include "SecureMemory.h"
#include "SecureVector.h"
#include <map>
#include <memory>
#include <thread>
using namespace vh;
using namespace CEX;
using namespace verif;
using CEX::Tools::LockingAllocator;
using CEX::Tools::MemoryPool;
#ifndef VERIF_NO_POOL
extern "C" { int verif_locked_pages = 1; }
#endif

// ---- the pool, against a model of who owns what ----
struct Shadow
{
	uint8_t* base; size_t size, align, lo, hi;
	std::map<size_t, size_t> live;            // offset -> length
	// could a request be served from the gaps?
	bool fits(size_t n) const
	{
		if (n > size || n < lo || n > hi) return false;
		size_t at = 0;
		for (auto i = live.begin();; ++i)
		{
			size_t end = i == live.end() ? size : i->first, a = (at + align - 1) / align * align;
			if (a + n <= end && a >= at) return true;
			if (i == live.end()) return false;
			at = i->first + i->second;
		}
	}
};
// (reads beyond the end of a cleared vector, which AddressSanitizer would report)
__attribute__((no_sanitize("address"), noinline)) static bool zero(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i]) return false; return true; }
static void pool(Rng& r)
{
	size_t bit = r.below(7), align = (size_t)1 << bit, size = r.chance(30) ? r.range(64, 400) : r.range(256, 6000);
	size_t lo = r.chance(50) ? 16 : r.range(1, 40), hi = lo + (r.chance(50) ? 112 : r.below(size));
	uint8_t* raw = (uint8_t*)malloc(size + 256);
	uint8_t* base = (uint8_t*)(((uintptr_t)raw + 64 + 63) / 64 * 64);
	memset(raw, 0xA7, size + 256);
	{
		MemoryPool p(base, size, 4096, lo, hi, (uint8_t)bit);
		Shadow s{ base, size, align, lo, hi, {} };
		std::string ctx = strf("pool of %zu, requests %zu-%zu, alignment %zu", size, lo, hi, align);
		std::map<size_t, uint8_t> mark;
		uint64_t trace = 0;
		for (size_t step = 0, steps = r.range(20, 300); step < steps; ++step)
		{
			unsigned w = r.below(100);
			if (w < 55 || s.live.empty())
			{
				size_t n = r.chance(60) ? r.range(lo, std::min(hi, lo + 4 * align)) : r.chance(70) ? r.range(lo, hi) : r.chance(50) ? lo + align * r.below(3) : r.below(hi + 20);
				bool can = s.fits(n);
				uint8_t* q = (uint8_t*)p.Allocate(n);
				trace = mix(trace ^ n ^ (uint64_t)(q ? q - base : -1));
				if (!expect((q != nullptr) == can, q ? "pool:too-much" : "pool:lost-memory", "request for %zu bytes %s with %zu blocks live; %s", n, q ? "served" : "refused", s.live.size(), ctx.c_str())) break;
				if (!q) { count("requests refused"); continue; }
				size_t off = q - base;
				if (!expect(q >= base && off + n <= size, "pool:outside", "%zu bytes at %zd; %s", n, (ssize_t)(q - base), ctx.c_str())) break;
				expect((uintptr_t)q % align == 0, "pool:alignment", "offset %zu; %s", off, ctx.c_str());
				auto nx = s.live.lower_bound(off); bool clash = nx != s.live.end() && nx->first < off + n;
				if (nx != s.live.begin()) { auto pv = std::prev(nx); clash |= pv->first + pv->second > off; }
				if (!expect(!clash, "pool:two-owners", "%zu bytes at %zu overlap a live block; %s", n, off, ctx.c_str())) break;
				expect(zero(q, n), "pool:not-erased", "a new block of %zu holds old data; %s", n, ctx.c_str());
				s.live[off] = n; mark[off] = (uint8_t)r.range(1, 255); memset(q, mark[off], n);
			}
			else if (w < 94)
			{
				auto i = s.live.begin(); std::advance(i, r.below(s.live.size()));
				bool mine = true; for (size_t j = 0; j < i->second; ++j) mine &= base[i->first + j] == mark[i->first];
				expect(mine, "pool:overwritten", "a live block changed; %s", ctx.c_str());
				if (!expect(p.Deallocate(base + i->first, i->second), "pool:deallocate", "refused its own block; %s", ctx.c_str())) break;
				expect(zero(base + i->first, i->second), "pool:not-erased", "a released block keeps its data; %s", ctx.c_str());
				trace = mix(trace ^ ~i->first);
				s.live.erase(i);
			}
			else if (w < 98)
			{
				// memory of somebody else
				size_t n = r.range(1, 60);
				uint8_t* q = r.chance(40) ? base + size - r.below(std::min<size_t>(n, size)) : r.chance(50) ? base - r.range(1, 60) : base + size;
				if (q >= base && q + n <= base + size) continue;
				Bytes before(raw, raw + size + 256);
				expect(!p.Deallocate(q, n) && Bytes(raw, raw + size + 256) == before, "pool:foreign", "took or erased memory outside itself (%zu bytes at %zd); %s", n, (ssize_t)(q - base), ctx.c_str());
			}
			else if (r.chance(25))
			{
				p.Reset(); s.live.clear();
				expect(zero(base, size), "pool:reset", "data left; %s", ctx.c_str());
			}
		}
		seen("pool", trace);
		bool edge = true; for (uint8_t* q = raw; q < raw + size + 256; ++q) if ((q < base || q >= base + size) && *q != 0xA7) edge = false;
		expect(edge, "pool:outside", "wrote beside the pool; %s", ctx.c_str());
	}
	expect(outcome([&] { MemoryPool q(nullptr, size, 4096, lo, hi, 4); }) == Threw && outcome([&] { MemoryPool q(base, size, 4096, hi + 1, hi, 4); }) == Threw && outcome([&] { MemoryPool q(base, size, 4096, lo, hi, 7); }) == Threw, "pool:constructor", "invalid parameters accepted");
	free(raw);
}
// several threads on one pool (or the allocator): each block keeps its owner's mark
static void hammer(const std::string& key, Rng& r, std::function<void*(size_t)> get, std::function<void(void*, size_t)> put, size_t lo, size_t hi, size_t steps)
{
	std::vector<std::thread> t;
	std::atomic<uint64_t> bad{0}, served{0}, fresh{0};
	for (unsigned k = 0; k < 6; ++k)
	{
		uint64_t seed = r.next();
		t.emplace_back([&, seed, k] {
			Rng q(seed);
			struct B { uint8_t* p; size_t n; uint8_t m; };
			std::vector<B> own;
			for (size_t i = 0; i < steps || !own.empty(); ++i)
			{
				if (i < steps && (own.empty() || q.chance(55)))
				{
					size_t n = q.range(lo, hi); uint8_t* p = (uint8_t*)get(n);
					if (!p) continue;
					++served; if (!zero(p, n)) ++fresh;
					B b{ p, n, (uint8_t)(k * 37 + 1 + q.below(36)) }; memset(p, b.m, n); own.push_back(b);
				}
				else
				{
					size_t j = q.below(own.size()); B b = own[j]; own[j] = own.back(); own.pop_back();
					for (size_t z = 0; z < b.n; ++z) if (b.p[z] != b.m) { ++bad; break; }
					put(b.p, b.n);
				}
			}
		});
	}
	for (auto& x : t) x.join();
	expect(bad == 0, key + ":two-owners", "%llu of %llu blocks changed under their owner", (unsigned long long)bad.load(), (unsigned long long)served.load());
	expect(fresh == 0, key + ":not-erased", "%llu new blocks held old data", (unsigned long long)fresh.load());
	count("blocks served to concurrent owners", served);
	seen(key, r.next());
}
static void poolThreads(Rng& r)
{
	size_t size = r.range(2000, 20000), hi = r.range(40, 200);
	uint8_t* base = (uint8_t*)aligned_alloc(64, (size + 63) / 64 * 64);
	{
		MemoryPool p(base, size, 4096, 16, hi, 4);
		hammer("pool-threads", r, [&](size_t n) { return p.Allocate(n); }, [&](void* q, size_t n) { p.Deallocate(q, n); }, 16, hi, reps(300, 1500));
		void* q = p.Allocate(hi); expect(q != nullptr, "pool-threads:lost-memory", "nothing left after everything was returned");
		if (q) p.Deallocate(q, hi);
	}
	free(base);
}
static void allocatorThreads(Rng& r)
{
	hammer("allocator-threads", r, [](size_t n) { return LockingAllocator::Allocate(n, 1); }, [](void* p, size_t n) { LockingAllocator::Deallocate(p, n, 1); }, 1, 300, reps(300, 1500));
	std::vector<std::thread> t; std::atomic<int> bad{0};
	for (int k = 0; k < 6; ++k)
	{
		uint64_t seed = r.next();
		t.emplace_back([&, seed] {
			Rng q(seed);
			for (int i = 0; i < 200; ++i) { SecureVector<uint8_t> a(q.range(1, 200), (uint8_t)(i + 1)), b(a); a.resize(q.range(1, 300)); for (auto x : b) bad += x != (uint8_t)(i + 1); }
		});
	}
	for (auto& x : t) x.join();
	expect(bad == 0, "allocator-threads:vectors", "%d bytes of secure vectors changed", bad.load());
}
// the process-wide allocator
static void allocator(Rng& r)
{
	struct B { uint8_t* p; size_t n, sz; uint8_t m; };
	std::vector<B> own;
	uint64_t trace = 0; size_t locked = 0, heap = 0;
	bool flood = r.chance(20);
	for (size_t step = 0, steps = flood ? 9000 : r.range(20, 400); step < steps; ++step)
	{
		if (own.empty() || r.chance(flood ? 98 : 55))
		{
			size_t sz = (size_t)1 << r.below(4), n = flood ? 128 / sz : r.chance(80) ? r.range(1, 160) / sz + 1 : r.range(1, 3000);
			uint8_t* p = nullptr; std::string e;
			if (!expect(outcome([&] { p = (uint8_t*)LockingAllocator::Allocate(n, sz); }, &e) == Returned && p, "allocator:refused", "%zu x %zu: %s", n, sz, e.c_str())) break;
			expect(zero(p, n * sz), "allocator:not-erased", "new memory of %zu bytes holds data", n * sz);
			bool in = rt_locked(p, n * sz);
			// the pool has half a megabyte: with little in it, everything from 16 to 128 bytes has to be there
			if (rt_pages(true) != 0 && !flood && n * sz >= 16 && n * sz <= 128) expect(in, "allocator:not-locked", "%zu bytes lie outside the locked pages", n * sz);
			in ? ++locked : ++heap;
			B b{ p, n, sz, (uint8_t)r.range(1, 255) }; memset(p, b.m, n * sz); own.push_back(b); trace = mix(trace ^ n * sz);
		}
		else
		{
			size_t j = r.below(own.size()); B b = own[j]; own[j] = own.back(); own.pop_back();
			bool same = true; for (size_t i = 0; i < b.n * b.sz; ++i) same &= b.p[i] == b.m;
			expect(same, "allocator:two-owners", "a live block of %zu changed", b.n * b.sz);
			bool in = rt_locked(b.p, b.n * b.sz), look = !in && r.chance(20);
			if (look) { scan::install(); scan::forget(); scan::add(Bytes(64, b.m)); scan::armed = true; }
			LockingAllocator::Deallocate(b.p, b.n, b.sz);
			if (look) { scan::armed = false; expect(scan::hits == 0, "allocator:not-erased", "%zu x %zu bytes went back to the heap with their data, from %zu on", b.n, b.sz, (size_t)scan::hitAt); scan::forget(); count("heap blocks searched when released"); }
			if (in) expect(zero(b.p, b.n * b.sz), "allocator:not-erased", "released memory of %zu bytes keeps its data", b.n * b.sz);
		}
	}
	while (!own.empty()) { B b = own.back(); own.pop_back(); bool same = true; for (size_t i = 0; i < b.n * b.sz; ++i) same &= b.p[i] == b.m; expect(same, "allocator:two-owners", "a live block of %zu changed", b.n * b.sz); LockingAllocator::Deallocate(b.p, b.n, b.sz); }
	if (flood) expect(rt_pages(true) == 0 || (locked >= 3000 && heap > 0), "allocator:exhausted", "%zu blocks locked, %zu not", locked, heap);
	LockingAllocator::Deallocate(nullptr, 10, 1);
	// a size that does not fit a size_t
	for (int i = 0; i < 3; ++i)
	{
		size_t sz = (size_t)2 << r.below(3), n = (~(size_t)0) / sz + 1 + r.range(8, 64) / sz; void* p = nullptr; std::string e;
		Outcome o = outcome([&] { p = LockingAllocator::Allocate(n, sz); }, &e);
		expect(o == Threw, "allocator:overflow", "%zu x %zu: %s", n, sz, o == Returned ? "served" : e.c_str());
	}
	count("blocks in locked pages", locked); count("blocks on the heap", heap);
	seen("allocator", trace);
}
// no locked pages to be had: everything still works, from the heap
static void unlocked(Rng& r)
{
	rt_fail_valloc = r.chance(50); rt_fail_vlock = 1;
	size_t before = rt_pages(false), l = rt_pages(true);
	size_t n = r.range(1, 9000);
	expect(SecureMemory::Allocate(n) == nullptr, "pages:unlocked", "pages were handed out although they could not be locked");
	expect(rt_pages(false) == before && rt_pages(true) == l, "pages:leak", "pages kept after the lock failed");
	rt_reset();
	uint8_t* p = (uint8_t*)SecureMemory::Allocate(n);
	if (!expect(p != nullptr, "pages:refused", "%zu bytes", n)) return;
	expect(rt_locked(p, n), "pages:not-locked", "%zu bytes", n);
	memset(p, 0x5C, n);
	size_t part = r.range(1, n); SecureMemory::Erase(p, part);
	bool ok = zero(p, part); for (size_t i = part; i < n; ++i) ok &= p[i] == 0x5C;
	expect(ok, "pages:erase", "%zu of %zu", part, n);
	SecureMemory::Free(p, n);
	expect(rt_pages(false) == before && rt_pages(true) == l, "pages:leak", "pages kept after Free");
	expect(SecureMemory::Available() && SecureMemory::PageSize() % 4096 == 0 && SecureMemory::Limit() > 0, "pages:properties", "page size %zu, limit %zu", SecureMemory::PageSize(), SecureMemory::Limit());
	seen("pages", n);
}
// ---- what secure vectors leave behind ----
static void erased(Rng& r)
{
	scan::install(); scan::forget();
	typedef SecureVector<uint8_t> SV;
	size_t n = r.chance(50) ? r.range(12, 140) : r.range(140, 5000);
	Bytes secret = r.bytes(n), in = secret;
	unsigned op = r.below(9);
	uint8_t* at = nullptr; size_t held = 0;
	std::unique_ptr<SV> keep(new SV(in.begin(), in.end()));
	scan::add(secret); scan::armed = true;
	scan::bytes = 0;
	static const char* NAMES[] = { "destroyed", "grown", "shrunk", "assigned", "moved", "SecureClear", "SecureUnlockClear", "SecureMove", "SecureLockClear" };
	std::vector<uint8_t> plain;
	switch (op)
	{
		case 0: { at = keep->data(); held = n; bool lk = rt_locked(at, n); keep.reset(); if (!lk) at = nullptr; break; }
		case 1: { at = keep->data(); held = n; bool lk = rt_locked(at, n); keep->resize(n * 2 + 200); if (!lk) at = nullptr; break; }
		case 2: { at = keep->data(); held = n; bool lk = rt_locked(at, n); keep->resize(n / 2); keep->shrink_to_fit(); keep.reset(); if (!lk) at = nullptr; break; }
		case 3: { SV other(n + r.below(300), 1); at = keep->data(); held = n; bool lk = rt_locked(at, n); *keep = std::move(other); if (!lk) at = nullptr; break; }
		case 4: { SV other(std::move(*keep)); at = other.data(); held = n; if (!rt_locked(at, n)) at = nullptr; keep.reset(); break; }
		case 5: { at = keep->data(); held = n; SecureClear(*keep); expect(keep->empty(), "erased:SecureClear", "not empty"); break; }
		case 6: { at = keep->data(); held = n; plain = SecureUnlockClear(*keep); scan::armed = false; same("erased:SecureUnlockClear", plain, secret, ""); expect(keep->empty(), "erased:SecureUnlockClear", "not empty"); break; }
		case 7: { SV o(n + 9, 3); at = keep->data(); held = n; if (r.chance(50)) SecureMove(*keep, o, (size_t)4); else SecureMove(*keep, (size_t)0, o, (size_t)4, n); scan::armed = false; sameV("erased:SecureMove", SV(o.begin() + 4, o.begin() + 4 + n), secret, ""); break; }
		default: { plain = secret; at = plain.data(); held = n; SV o = SecureLockClear(plain); expect(plain.empty(), "erased:SecureLockClear", "not empty"); scan::armed = false; sameV("erased:SecureLockClear", o, secret, ""); expect(zero(at, held), strf("erased:%s", NAMES[op]), "%zu bytes stay in memory", n); at = nullptr; break; }
	}
	scan::armed = false;
	expect(scan::hits == 0, strf("erased:%s", NAMES[op]), "a heap block of %zu bytes was given back with the secret in it (vector of %zu)", scan::hitSize, n);
	if (at) expect(zero(at, held), strf("erased:%s", NAMES[op]), "%zu bytes stay in memory", n);
	count("bytes searched when given back", scan::bytes);
	seen(NAMES[op], n);
	scan::forget();
}
// ---- the helpers ----
template<class T> static void helpersT(Rng& r, const char* tn)
{
	typedef SecureVector<T> SV; typedef std::vector<T> V;
	auto rnd = [&](size_t n) { V v(n); for (auto& x : v) x = (T)r.next(); return v; };
	auto S = [](const V& v) { return SV(v.begin(), v.end()); };
	auto P = [](const SV& v) { return V(v.begin(), v.end()); };
	size_t n = r.below(150), off = r.below(20), m = off + n + r.below(30);
	V in = rnd(n + off), out = rnd(m);
	std::string k = std::string("helpers:") + tn + ":";
	size_t io = r.below(off + 1), el = r.chance(30) ? n : r.below(n + 1), oo = r.below(m + 1 - std::min(m, el));
	auto put = [&](V o, size_t at, const V& src, size_t from, size_t cnt) { if (o.size() < at + cnt) o.resize(at + cnt); std::copy(src.begin() + from, src.begin() + from + cnt, o.begin() + at); return o; };
	auto cat = [&](const V& a, const V& b) { V o = a; o.insert(o.end(), b.begin(), b.end()); return o; };
	auto chk = [&](const char* f, const V& got, const V& want) { expect(got == want, k + f, "%zu elements into %zu, from %zu to %zu, %zu moved", in.size(), out.size(), io, oo, el); };
	size_t grow = r.chance(50) ? oo : m - std::min<size_t>(m, r.below(5));
	{ SV a = S(in), o = S(out); SecureCopy(a, io, o, oo, el * sizeof(T)); chk("SecureCopy", P(o), put(out, oo, in, io, el)); }
	{ SV a = S(in); V o = out; SecureExtract(a, o); chk("SecureExtract", o, cat(out, in)); }
	{ SV a = S(in), o = S(out); SecureExtract(a, o); chk("SecureExtract-secure", P(o), cat(out, in)); }
	{ SV a = S(in); V o = out; SecureExtract(a, io, o, grow, el); chk("SecureExtract-range", o, put(out, grow, in, io, el)); }
	{ SV a = S(in), o = S(out); SecureExtract(a, io, o, grow, el); chk("SecureExtract-secure-range", P(o), put(out, grow, in, io, el)); }
	{ SV o = S(out); SecureInsert(in, o); chk("SecureInsert", P(o), cat(out, in)); }
	{ SV a = S(in), o = S(out); SecureInsert(a, o); chk("SecureInsert-secure", P(o), cat(out, in)); }
	{ SV o = S(out); SecureInsert(in, io, o, grow, el); chk("SecureInsert-range", P(o), put(out, grow, in, io, el)); }
	{ SV a = S(in), o = S(out); SecureInsert(a, io, o, grow, el); chk("SecureInsert-secure-range", P(o), put(out, grow, in, io, el)); }
	{ chk("SecureLock", P(SecureLock(in)), in); chk("SecureUnlock", SecureUnlock(S(in)), in); V a = in; SV b = S(in); chk("SecureLockClear", P(SecureLockClear(a)), in); chk("SecureUnlockClear", SecureUnlockClear(b), in); expect(a.empty() && b.empty(), k + "clear", "input not empty"); }
	V clr = in; std::fill(clr.begin() + io, clr.begin() + io + el, (T)0);
	{ V a = in; SV o = S(out); SecureMove(a, io, o, oo, el * sizeof(T)); chk("SecureMove-lock", P(o), put(out, oo, in, io, el)); chk("SecureMove-source", a, clr); }
	{ SV a = S(in); V o = out; SecureMove(a, io, o, oo, el * sizeof(T)); chk("SecureMove-unlock", o, put(out, oo, in, io, el)); chk("SecureMove-source", P(a), clr); }
	{ SV a = S(in), o = S(out); SecureMove(a, io, o, oo, el * sizeof(T)); chk("SecureMove-secure", P(o), put(out, oo, in, io, el)); chk("SecureMove-source", P(a), clr); }
	V small(in.begin(), in.begin() + el);
	{ V a = small; SV o = S(out); SecureMove(a, o, oo); chk("SecureMove-all", P(o), put(out, oo, small, 0, el)); expect(a.empty(), k + "SecureMove-all", "source kept"); }
	{ SV a = S(small); V o = out; SecureMove(a, o, oo); chk("SecureMove-all", o, put(out, oo, small, 0, el)); expect(a.empty(), k + "SecureMove-all", "source kept"); }
	{ SV a = S(small), o = S(out); SecureMove(a, o, oo); chk("SecureMove-all", P(o), put(out, oo, small, 0, el)); expect(a.empty(), k + "SecureMove-all", "source kept"); }
	{ SV a = S(in); SecureClear(a); expect(a.empty(), k + "SecureClear", "not empty"); }
	seen(tn, mix(n * 1000003 + el * 1009 + oo));
}
static void helpers(Rng& r) { switch (r.below(4)) { case 0: helpersT<uint8_t>(r, "8"); break; case 1: helpersT<uint16_t>(r, "16"); break; case 2: helpersT<uint32_t>(r, "32"); break; default: helpersT<uint64_t>(r, "64"); } }

void cases()
{
	if (part("pool")) for (size_t i = 0; i < reps(3000, 200000); ++i) run(strf("pool#%zu", i), pool);
	if (part("threads")) for (size_t i = 0; i < reps(30, 1200); ++i) { run(strf("pool-threads#%zu", i), poolThreads); run(strf("allocator-threads#%zu", i), allocatorThreads); }
	if (part("allocator")) { for (size_t i = 0; i < reps(300, 20000); ++i) run(strf("allocator#%zu", i), allocator); for (size_t i = 0; i < reps(100, 3000); ++i) run(strf("pages#%zu", i), unlocked); }
	if (part("erased")) for (size_t i = 0; i < reps(2000, 100000); ++i) run(strf("erased#%zu", i), erased);
	if (part("helpers")) for (size_t i = 0; i < reps(4000, 300000); ++i) run(strf("helpers#%zu", i), helpers);
}
