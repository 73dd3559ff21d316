// Parallel helpers and profiles; independent instances used by several threads at once.
#include "jobs.h"
#include "ParallelOptions.h"
#include "ParallelTools.h"
#include <chrono>
#include <thread>
using namespace vh;
using namespace CEX;
using namespace CEX::Tools;

static void pause(Rng& r) { switch (r.below(6)) { case 0: std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); break; case 1: std::this_thread::yield(); break; case 2: { volatile int x = 0; for (unsigned i = 0, n = (unsigned)r.below(3000); i < n; ++i) x += i; break; } default: break; } }

// each index once, all done on return, what they wrote is visible, and what they threw arrives
static void loop(Rng& r, const std::string& key, int depth)
{
	size_t from = r.chance(60) ? 0 : r.below(1000), n = r.chance(10) ? 0 : depth ? r.range(1, 4) : r.range(1, 24), to = from + n;
	if (n == 0 && r.chance(50) && from) to = from - 1;
	std::vector<uint64_t> seeds(n); for (auto& x : seeds) x = r.next();
	std::vector<int> plain(n, 0); std::vector<std::atomic<int>> runs(n); for (auto& x : runs) x = 0;
	std::atomic<int> outside{0}, running{0}, most{0};
	bool throwing = r.chance(30); std::vector<bool> bad(n); size_t nb = 0;
	for (size_t i = 0; i < n; ++i) { bad[i] = throwing && r.chance(30); nb += bad[i]; }
	long caught = -1; bool other = false;
	struct Mine { long i; };
	try
	{
		ParallelTools::ParallelFor(from, to, [&](size_t i) {
			if (i < from || i - from >= n) { ++outside; return; }
			size_t k = i - from; Rng q(seeds[k]);
			int now = ++running, m = most; while (now > m && !most.compare_exchange_weak(m, now)) {}
			++runs[k]; pause(q);
			if (depth < 1 && q.chance(10)) loop(q, key + "-nested", depth + 1);
			plain[k] += 7; pause(q);
			--running;
			if (bad[k]) throw Mine{ (long)k };
		});
	}
	catch (Mine& e) { caught = e.i; }
	catch (...) { other = true; }
	std::string ctx = strf("%zu tasks from %zu", n, from);
	int left = running;
	expect(left == 0, key + ":early", "%d tasks still run after the call returned; %s", left, ctx.c_str());
	expect(outside == 0, key + ":range", "%d calls outside the range; %s", outside.load(), ctx.c_str());
	uint64_t sig = n;
	for (size_t k = 0; k < n; ++k) { if (!expect(runs[k] == 1 && plain[k] == 7, key + ":once", "task %zu ran %d times; %s", k, runs[k].load(), ctx.c_str())) break; sig = mix(sig ^ seeds[k]); }
	expect(!other && (nb ? caught >= 0 && bad[caught] : caught < 0), key + ":exception", "%zu tasks threw, %ld arrived; %s", nb, caught, ctx.c_str());
	count(strf("at most %d tasks at once", std::min(most.load(), 8)));
	seen(key, sig);
}
static void loopCase(Rng& r)
{
	loop(r, "ParallelFor", 0);
	int v = 0; bool t = r.chance(30), got = false;
	try { ParallelTools::ParallelTask([&] { Rng q(5); pause(q); v += 3; if (t) throw 17; }); } catch (int e) { got = e == 17; }
	expect(v == 3 && got == t, "ParallelTask", "ran %d times, exception %d", v / 3, got);
	// several callers at once
	if (r.chance(20))
	{
		std::vector<std::thread> th;
		for (int k = 0; k < 3; ++k) { uint64_t s = r.next(); th.emplace_back([s] { Rng q(s); loop(q, "ParallelFor-concurrent", 0); }); }
		for (auto& x : th) x.join();
	}
}

// whatever is asked of a profile, it describes a split of a message that fits
static void profile(Rng& r)
{
	size_t block = r.pick(std::vector<size_t>{ 2, 16, 32, 64, 72, 128, 136, 168, 256, 1024, 4096, 8192 }), reserve = r.chance(60) ? r.below(20000) : r.below(1 << 24), deg = r.chance(50) ? 0 : r.range(1, 40);
	bool simd = r.chance(50), par = r.chance(70), split = r.chance(50);
	size_t pb = r.chance(30) ? 0 : r.chance(50) ? r.range(1, 5000) : r.range(1, 300000);
	int kind = (int)r.below(3);
	std::unique_ptr<ParallelOptions> p;
	std::string ctx = strf("kind %d block %zu simd %d reserve %zu split %d degree %zu", kind, block, simd, reserve, split, deg);
	auto make = [&](size_t b) { return kind == 0 ? new ParallelOptions(b, simd, reserve, split, deg) : kind == 1 ? new ParallelOptions(b, par, simd, reserve, split, deg) : new ParallelOptions(b, par, pb, deg, simd, reserve, split); };
	expect(outcome([&] { std::unique_ptr<ParallelOptions> q(make(0)); }) == Threw && outcome([&] { std::unique_ptr<ParallelOptions> q(make(block + 1)); }) == Threw, "profile:odd-block", "a block size of 0 or %zu was taken", block + 1);
	p.reset(make(block));
	size_t procs = std::max<size_t>(p->ProcessorCount(), 1), wide = 0; bool over = false;
	if (kind == 1) expect(p->IsParallel() == par, "profile:parallel", "asked for %d; %s", par, ctx.c_str());
	if (kind == 2 && !par) expect(!p->IsParallel(), "profile:parallel", "parallel though not wanted; %s", ctx.c_str());
	struct { bool p; size_t d, b; } def{ kind == 1 ? procs > 1 : p->IsParallel(), p->ParallelMaxDegree(), p->ParallelBlockSize() };
	for (int i = 0; i < 12; ++i)
	{
		size_t d = p->ParallelMaxDegree(), b = p->ParallelBlockSize(), m = p->ParallelMinimumSize();
		std::string c = ctx + strf("; now degree %zu block %zu minimum %zu", d, b, m);
		if (!expect(p->BlockSize() == block, "profile:block", "%zu; %s", p->BlockSize(), c.c_str())) return;
		if (!expect(d >= 1 && (over || d <= procs), "profile:degree", "%zu processors; %s", procs, c.c_str())) return;
		if (!expect(m != 0 && m % (d * block) == 0, "profile:minimum", "%s", c.c_str())) return;
		size_t w = m / (d * block); if (!wide) wide = w;
		if (!expect(w == wide && (simd ? w >= 1 && w <= 16 : w == 1), "profile:minimum", "%zu blocks each, before %zu; %s", w, wide, c.c_str())) return;
		if (!expect(b != 0 && b % m == 0 && b < (size_t)1 << 40, "profile:split", "%s", c.c_str())) return;
		if (!expect(p->IsDefault() == (p->IsParallel() == def.p && d == def.d && b == def.b), "profile:default", "%d; %s", p->IsDefault(), c.c_str())) return;
		seen("profile", mix(b) ^ mix(d * 131 + m));
		switch (r.below(6))
		{
			case 0: { size_t n = r.range(1, 64); p->SetMaxDegree(n); over = true; ctx = strf("block %zu simd %d SetMaxDegree %zu after degree %zu block %zu", block, simd, n, d, b); if (!expect(p->ParallelMaxDegree() == n, "profile:SetMaxDegree", "%zu; %s", p->ParallelMaxDegree(), ctx.c_str())) return; break; }
			case 1: { size_t n = m * r.range(1, 9) + (r.chance(50) ? r.below(m) : 0); p->SetBlockSize(n); ctx = strf("block %zu simd %d SetBlockSize %zu after degree %zu block %zu", block, simd, n, d, b); if (!expect(p->ParallelBlockSize() == n - n % m, "profile:SetBlockSize", "%zu; %s", p->ParallelBlockSize(), ctx.c_str())) return; break; }
			case 2: expect(outcome([&] { p->SetBlockSize(r.below(m)); }) == Threw && outcome([&] { p->SetMaxDegree(0); }) == Threw && p->ParallelBlockSize() == b && p->ParallelMaxDegree() == d, "profile:refused", "%s", c.c_str()); break;
			case 3: p->IsParallel() = r.chance(50); break;
			case 4: p->Calculate(); break;
			default: { bool q = r.chance(60); size_t nb = r.chance(40) ? 0 : r.range(1, 200000), nd = r.chance(40) ? 0 : r.range(1, procs); ctx = strf("block %zu simd %d Calculate %d %zu %zu after degree %zu block %zu", block, simd, q, nb, nd, d, b); p->Calculate(q, nb, nd); if (!expect((!p->IsParallel() || q) && (!nd || p->ParallelMaxDegree() == nd), "profile:Calculate", "parallel %d degree %zu; %s", p->IsParallel(), p->ParallelMaxDegree(), ctx.c_str())) return; break; }
		}
	}
}

// what independent instances compute does not depend on who else computes
static void instances(Rng& r)
{
	static const std::vector<jobs::Job> J = jobs::all(cfg.thorough);
	struct Task { const jobs::Job* j; uint64_t seed, got, want; std::string e; };
	bool one = r.chance(40);             // everyone the same kind of work, or a mix
	const jobs::Job* only = &r.pick(J);
	size_t T = r.range(2, 6), N = r.range(1, 6);
	std::vector<std::vector<Task>> w(T);
	bool alike = r.chance(50);           // all threads take the same paths at the same time
	for (size_t k = 0; k < T; ++k)
		if (alike && k) w[k] = w[0];
		else for (size_t i = 0; i < N; ++i) { const jobs::Job* j = one ? only : &r.pick(J); if (j->weight > 100 && i) continue; w[k].push_back({ j, r.next(), 0, 0, "" }); }
	auto go = [](Task& t, uint64_t& out) { Rng q(t.seed); try { out = t.j->f(q); } catch (CEX::Exception::CryptoException& e) { t.e = e.Message(); out = 1; } catch (std::exception& e) { t.e = e.what(); out = 2; } };
	bool before = r.chance(30);
	if (before) for (auto& v : w) for (auto& t : v) go(t, t.want);
	std::atomic<size_t> ready{0};
	std::vector<std::thread> th;
	for (auto& v : w) th.emplace_back([&] { ++ready; while (ready < T) std::this_thread::yield(); for (auto& t : v) go(t, t.got); });
	for (auto& x : th) x.join();
	if (!before) for (auto& v : w) for (auto& t : v) go(t, t.want);
	for (auto& v : w) for (auto& t : v)
	{
		expect(t.e.empty(), "instances:exception:" + t.j->name, "%s", t.e.c_str());
		expect(t.got == t.want, "instances:differs:" + t.j->name, "seed %llu: together %llx, alone %llx", (unsigned long long)t.seed, (unsigned long long)t.got, (unsigned long long)t.want);
		seen("instances " + t.j->name, t.got ^ mix(T));
	}
	count(strf("%zu threads at once", T));
}

void cases()
{
	if (part("for")) for (size_t i = 0; i < reps(300, 20000); ++i) vh::run(strf("for#%zu", i), loopCase);
	if (part("profile")) for (size_t i = 0; i < reps(4000, 200000); ++i) vh::run(strf("profile#%zu", i), profile);
	if (part("instances")) for (size_t i = 0; i < reps(100, 4000); ++i) vh::run(strf("instances#%zu", i), instances);
}
