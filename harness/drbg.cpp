// Deterministic random generators against reference models: the output of a generator is a function of
// its key, nonce, customisation, the updates it was given and what its entropy provider returned.
#include "ref.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "DrbgFromName.h"
#include "IProvider.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
#include <algorithm>
#include <memory>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using CEX::Drbg::IDrbg;

// an entropy provider whose output is known to the model
struct Source
{
	uint64_t s;
	Bytes next(size_t n) { Bytes b(n); for (auto& c : b) c = (uint8_t)(s = mix(s + 1)); return b; }
};
struct TestProvider : Provider::IProvider
{
	Source src; uint64_t bytes = 0, calls = 0; int* alive;
	TestProvider(uint64_t seed, int* a) : src{ seed }, alive(a) { ++*alive; }
	~TestProvider() { --*alive; }
	const Providers Enumeral() override { return Providers::ECP; }
	const bool IsAvailable() override { return true; }
	const std::string Name() override { return "Test"; }
	template<class V> void fill(V& o, size_t off, size_t n) { Bytes b = src.next(n); std::copy(b.begin(), b.end(), o.begin() + off); bytes += n; ++calls; }
	void Generate(std::vector<uint8_t>& o) override { fill(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t>& o) override { fill(o, 0, o.size()); }
	void Generate(std::vector<uint8_t>& o, size_t off, size_t n) override { fill(o, off, n); }
	void Generate(SecureVector<uint8_t>& o, size_t off, size_t n) override { fill(o, off, n); }
	uint16_t NextUInt16() override { return 1; }
	uint32_t NextUInt32() override { return 1; }
	uint64_t NextUInt64() override { return 1; }
	void Reset() override {}
};

struct Model
{
	Source* src = nullptr;
	size_t counter = 0, threshold = 102400000, reseeds = 0;
	virtual ~Model() {}
	virtual void init(const Bytes& key, const Bytes& nonce, const Bytes& info) = 0;
	virtual Bytes generate(size_t n) = 0;
	virtual void update(const Bytes& key) = 0;
};
struct ModelB : Model
{
	ref::Rijndael r; Bytes ctr, custom;
	void init(const Bytes& key, const Bytes& nonce, const Bytes& info) override { counter = reseeds = 0; rekey(key, nonce, info); }
	void rekey(const Bytes& key, const Bytes& nonce, const Bytes& info)
	{
		custom = ref::cat({ ref::str("BCG version 1.0b"), info });
		ctr = nonce;
		r.nb = 8; r.rounds = key.size() == 128 ? 38 : (int)key.size() / 4 + 14;
		Bytes name = ref::cat({ ref::leb(key.size() * 8, 2), ref::str("BCG") }), ks = ref::shakeKdf(136, key, custom, name, 32 * (r.rounds + 1));
		r.rk.clear();
		for (int i = 0; i <= r.rounds; ++i) r.rk.push_back(ref::sub(ks, 32 * i, 32));
	}
	Bytes process(size_t n)
	{
		Bytes o;
		while (o.size() < n)
		{
			uint8_t b[32]; r.encrypt(ctr.data(), b);
			for (int i = 0; i < 16 && ++ctr[i] == 0; ++i);
			o.insert(o.end(), b, b + std::min<size_t>(32, n - o.size()));
		}
		return o;
	}
	Bytes generate(size_t n) override
	{
		Bytes o = process(n);
		if (src) { counter += n; if (counter >= threshold) update(process(32)); }
		return o;
	}
	void update(const Bytes& k) override
	{
		++reseeds;
		Bytes key = k;
		if (src) key = ref::shakeKdf(136, k, src->next(32), {}, k.size());
		counter = 0;
		rekey(key, ctr, custom);
	}
};
struct ModelH : Model
{
	int bits; size_t rate; Bytes key, buf, code, nonce, cache;
	explicit ModelH(int b) : bits(b), rate(b == 256 ? 64 : 128) {}
	void add(uint64_t v) { for (int i = 7; i >= 0 && v; --i) { v += nonce[i]; nonce[i] = (uint8_t)v; v >>= 8; } }
	void init(const Bytes& k, const Bytes& iv, const Bytes& info) override
	{
		counter = reseeds = 0; key = k; cache.clear();
		code = ref::cat({ ref::str(strf("CEX-HCG-SHA2%d", bits)), ref::leb(rate * 2, 2), info });
		nonce.assign(8, 0);
		std::copy(iv.begin(), iv.begin() + std::min<size_t>(8, iv.size()), nonce.begin());
		add(code.size());
		buf = ref::hmac(bits, key, ref::cat({ code, nonce }));
	}
	void fill() { add(rate); buf = ref::hmac(bits, key, ref::cat({ buf, code, nonce })); cache = buf; }
	Bytes generate(size_t n) override
	{
		Bytes o;
		bool filled = cache.size() < n;
		while (o.size() < n) { if (cache.empty()) fill(); size_t m = std::min(n - o.size(), cache.size()); o.insert(o.end(), cache.begin(), cache.begin() + m); cache.erase(cache.begin(), cache.begin() + m); }
		// a request that made new blocks erases what it took of the last one, which then no longer feeds the next
		if (filled && !cache.empty()) std::fill(buf.begin(), buf.end() - cache.size(), 0);
		if (src && (counter += n) >= threshold) { ++reseeds; rekey(src->next(rate / 2)); counter = 0; }
		return o;
	}
	void rekey(const Bytes& first) { fill(); key = ref::cat({ first, ref::hmac(bits, key, buf) }); fill(); }
	void update(const Bytes& k) override { ++reseeds; rekey(ref::hmac(bits, key, k)); }
};
struct ModelC : Model
{
	size_t rate; uint64_t s[25]; uint8_t domain = 0; Bytes cache;
	explicit ModelC(size_t r) : rate(r) {}
	uint8_t* p() { return (uint8_t*)s; }
	void absorb(const Bytes& k)
	{
		size_t i = 0;
		for (; k.size() - i >= rate; i += rate) { for (size_t j = 0; j < rate; ++j) p()[j] ^= k[i + j]; ref::keccakP(s); }
		size_t n = 0;
		for (; i < k.size(); ++i) p()[n++] ^= k[i];
		p()[n] ^= domain; p()[rate - 1] ^= 0x80;
	}
	void init(const Bytes& k, const Bytes& iv, const Bytes& info) override
	{
		counter = reseeds = 0; cache.clear(); memset(s, 0, sizeof s);
		domain = iv.empty() && info.empty() ? 0x1F : 0x04;
		if (domain == 4)
		{
			Bytes c = ref::cat({ ref::leftEncode(rate), ref::leftEncode(8 * info.size()), info, ref::leftEncode(8 * iv.size()), iv });
			while (c.size() % rate) c.push_back(0);
			for (size_t i = 0; i < c.size(); ++i) { p()[i % rate] ^= c[i]; if (i % rate == rate - 1) ref::keccakP(s); }
		}
		absorb(k);
	}
	void fill() { ref::keccakP(s); cache.assign(p(), p() + rate); }
	void derive() { absorb(src->next((200 - rate) / 2)); fill(); }
	Bytes generate(size_t n) override
	{
		Bytes o;
		while (o.size() < n) { if (cache.empty()) fill(); size_t m = std::min(n - o.size(), cache.size()); o.insert(o.end(), cache.begin(), cache.begin() + m); cache.erase(cache.begin(), cache.begin() + m); }
		if (src && (counter += n) >= threshold) { ++reseeds; derive(); counter = 0; }
		return o;
	}
	void update(const Bytes& k) override { ++reseeds; if (src) derive(); absorb(k); fill(); }
};

struct Def { const char* name; Drbgs e; int bits; size_t block; ShakeModes m; };
static const std::vector<Def> ALL = { { "BCG", Drbgs::BCG, 0, 32, ShakeModes::None }, { "HCG-SHA2256", Drbgs::HCG, 256, 32, ShakeModes::None }, { "HCG-SHA2512", Drbgs::HCG, 512, 64, ShakeModes::None },
	{ "CSG-SHAKE128", Drbgs::CSG, 128, 168, ShakeModes::SHAKE128 }, { "CSG-SHAKE256", Drbgs::CSG, 256, 136, ShakeModes::SHAKE256 }, { "CSG-SHAKE512", Drbgs::CSG, 512, 72, ShakeModes::SHAKE512 } };

struct Inst
{
	// destroyed in this order: the generator, then what it borrowed
	int alive = 0; std::unique_ptr<TestProvider> prov; std::unique_ptr<Digest::IDigest> dgt; std::unique_ptr<Source> src; std::unique_ptr<Model> m; std::unique_ptr<IDrbg> g; std::string how;
};
static void make(Inst& t, const Def& d, Rng& r, bool provider, bool parallel)
{
	if (provider) { uint64_t seed = r.next(); t.prov.reset(new TestProvider(seed, &t.alive)); t.src.reset(new Source{ seed }); }
	SHA2Digests h = d.bits == 256 ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512;
	if (d.e == Drbgs::BCG) { t.m.reset(new ModelB); t.g.reset(provider ? new Drbg::BCG(t.prov.get(), parallel) : new Drbg::BCG(Providers::None, parallel)); }
	else if (d.e == Drbgs::HCG)
	{
		t.m.reset(new ModelH(d.bits));
		if (provider) { if (d.bits == 256) t.dgt.reset(new Digest::SHA2256); else t.dgt.reset(new Digest::SHA2512); t.g.reset(new Drbg::HCG(t.dgt.get(), t.prov.get())); }
		else t.g.reset(new Drbg::HCG(h, Providers::None));
	}
	else { t.m.reset(new ModelC(d.block)); t.g.reset(provider ? new Drbg::CSG(d.m, t.prov.get()) : new Drbg::CSG(d.m, Providers::None)); }
	if (!provider && r.chance(30)) { Digests dg = d.e == Drbgs::HCG ? (Digests)h : d.e == Drbgs::CSG ? (Digests)d.m : Digests::None; t.g.reset(Helper::DrbgFromName::GetInstance(d.e, dg, Providers::None)); }
	if (d.e == Drbgs::HCG && t.g->Name() != d.name) fail(strf("drbg-name:%s", d.name), "calls itself %s", t.g->Name().c_str());
	t.m->src = t.src.get();
	t.how = std::string(d.name) + (provider ? " with provider" : " without provider");
}
static Bytes request(IDrbg& g, size_t n, Rng& r, const Def& d, std::string& how)
{
	unsigned form = r.below(4);
	size_t off = r.range(0, 40), pad = r.below(9);
	Bytes o;
	if (form == 0) { std::vector<uint8_t> v(n, 0xA7); g.Generate(v); how = "vector"; return v; }
	if (form == 1) { SecureVector<uint8_t> v(n, 0xA7); g.Generate(v); how = "secure vector"; return Bytes(v.begin(), v.end()); }
	if (form == 2) { std::vector<uint8_t> v(off + n + pad, 0xA7); g.Generate(v, off, n); o = v; how = strf("vector at %zu", off); }
	else { SecureVector<uint8_t> v(off + n + pad, 0xA7); g.Generate(v, off, n); o.assign(v.begin(), v.end()); how = strf("secure vector at %zu", off); }
	for (size_t j = 0; j < o.size(); ++j) if ((j < off || j >= off + n) && o[j] != 0xA7) { fail(strf("drbg-writes-outside:%s", d.name), "byte %zu outside [%zu,%zu) changed", j, off, off + n); break; }
	return ref::sub(o, off, n);
}
static std::string reinit(Inst& t, const Def& d, Rng& r)
{
	Bytes key, iv, info;
	if (d.e == Drbgs::BCG)
	{
		key = r.bytes(r.pick(std::vector<size_t>{ 32, 32, 64, 128 })); iv = r.bytes(32);
		if (r.chance(60)) { size_t n = r.pick(std::vector<size_t>{ 1, 2, 4, 8, 16, 32 }); for (size_t i = 0; i < n; ++i) iv[i] = 0xFF; if (r.chance(60)) iv[0] = (uint8_t)(256 - r.range(1, 200)); else if (n > 1) { iv[0] = (uint8_t)r.next(); iv[1] = (uint8_t)(256 - r.range(1, 12)); } }
	}
	else if (d.e == Drbgs::HCG)
	{
		key = r.bytes(r.chance(50) ? r.pick(std::vector<size_t>{ 16, 32, 64, 128 }) : r.range(16, 300)); if (r.chance(70)) { iv = r.bytes(r.chance(60) ? 8 : r.range(4, 40)); if (r.chance(50)) for (size_t i = 1; i < iv.size(); ++i) iv[i] = 0xFF; }
	}
	else { key = r.bytes(r.chance(40) ? d.block + r.below(5) - 2 : r.range(16, 400)); if (r.chance(50)) iv = r.bytes(r.chance(60) ? r.range(4, 40) : r.range(4, 300)); }
	if (r.chance(50)) info = r.bytes(r.chance(60) ? r.range(1, 40) : r.range(1, 300));
	Cipher::SymmetricKey k(key, iv, info);
	t.g->Initialize(k); t.m->init(key, iv, info);
	return strf("key %zu bytes, nonce %s, info %zu", key.size(), hex(iv).c_str(), info.size());
}

void cases()
{
	if (part("gen"))
		for (auto& d : ALL)
			for (size_t i = 0; i < reps(40, 1200); ++i)
				run(strf("drbg-%s#%zu", d.name, i), [&d](Rng& r)
				{
					Inst t; make(t, d, r, r.chance(60), r.chance(60));
					size_t prl = 0;
					if (auto* b = dynamic_cast<Drbg::BCG*>(t.g.get()))
						if (b->IsParallel())
						{
							ParallelOptions& p = b->ParallelProfile();
							size_t deg = r.pick(std::vector<size_t>{ 2, 4, 6, 8 });
							if (deg <= p.ProcessorCount()) b->ParallelMaxDegree(deg);
							p.SetBlockSize(p.ParallelMinimumSize() * r.range(1, 3));
							prl = b->ParallelBlockSize(); t.how += strf(" parallel degree %zu block %zu", p.ParallelMaxDegree(), prl);
						}
					for (int u = 0; u < 3; ++u)
					{
						std::string ki = reinit(t, d, r), hr;
						size_t th = r.chance(50) ? r.range(1, 600) : 102400000;
						t.g->ReseedThreshold() = t.m->threshold = th;
						size_t calls = r.range(1, 7);
						for (size_t c = 0; c < calls; ++c)
						{
							if (r.chance(20))
							{
								Bytes k = r.bytes(d.e == Drbgs::BCG ? r.pick(std::vector<size_t>{ 32, 64, 128 }) : d.e == Drbgs::HCG ? r.range(d.bits / 8, 300) : r.range(16, 300));
								if (r.chance(50)) t.g->Update(k); else { SecureVector<uint8_t> s(k.begin(), k.end()); t.g->Update(s); }
								t.m->update(k); ki += ", updated"; count("updates");
							}
							if (r.chance(10))
							{
								// a refused request takes nothing from the stream
								std::vector<uint8_t> v(20); SecureVector<uint8_t> s(20); size_t off = r.range(0, 30);
								bool sec = r.chance(50);
								expect(outcome([&] { if (sec) t.g->Generate(s, off, 21); else t.g->Generate(v, off, 21); }) == Threw, strf("drbg-small-output:%s", d.name), "21 bytes at %zu of 20 accepted", off);
								count("refused requests");
							}
							size_t n = prl && r.chance(60) ? prl - 40 + r.below(3 * prl) : r.chance(50) ? r.range(1, 100) : std::max<size_t>(1, r.length(d.block, 12));
							size_t before = t.m->reseeds;
							Bytes want = t.m->generate(n), got = request(*t.g, n, r, d, hr);
							std::string ctx = strf("%s, %s, threshold %zu, use %d, request %zu of %zu bytes, %s", t.how.c_str(), ki.c_str(), th, u, c, n, hr.c_str());
							same(strf("drbg:%s%s", d.name, prl && n >= prl ? "-parallel" : u ? "-reinit" : ""), got, want, ctx);
							if (t.m->reseeds != before) { ki += ", reseeded"; count("automatic reseeds"); }
							if (t.prov) expect(t.prov->src.s == t.src->s, strf("drbg-entropy:%s", d.name), "took %zu bytes from its provider, not the amount its definition takes: %s", (size_t)t.prov->bytes, ctx.c_str());
							seen(d.name, hash(got)); count("requests"); count("bytes", n); if (prl && n >= prl) count("parallel requests");
							if (u == 0 && c == 0 && r.chance(2)) sample(ctx + " -> " + hex(got, 16));
						}
					}
					t.g.reset();
					if (t.prov) expect(t.alive == 1, strf("drbg-owns-provider:%s", d.name), "the caller's provider was deleted"), t.alive == 1 ? (void)0 : (void)t.prov.release();
				});
	// a generator refuses to be re-seeded past its limit, and works again once it is keyed anew
	if (part("limit"))
		for (auto& d : ALL)
			for (int mode = 0; mode < 2; ++mode)
				for (size_t i = 0; i < reps(1, 4); ++i)
				run(strf("drbg-limit-%s-%s#%zu", d.name, mode ? "auto" : "update", i), [&d, mode](Rng& r)
				{
					Inst t; make(t, d, r, mode == 1, false);
					for (int u = 0; u < 2; ++u)
					{
						std::string ki = reinit(t, d, r), hr;
						t.g->ReseedThreshold() = t.m->threshold = 1;
						size_t max = t.g->MaxReseedCount(), done = 0;
						bool refused = false;
						Bytes k = r.bytes(d.e == Drbgs::HCG ? 64 : 32);
						for (; done < max + 3; ++done)
						{
							std::vector<uint8_t> v(3);
							if (outcome([&] { if (mode) t.g->Generate(v); else t.g->Update(k); }) != Returned) { refused = true; break; }
						}
						expect(refused && done == max, strf("drbg-reseed-limit:%s", d.name), "%zu reseeds accepted, the limit is %zu (%s, use %d)", done, max, mode ? "automatic" : "updates", u);
						count("reseeds up to the limit", done); seen(d.name, mix(done * 7 + mode * 2 + u) ^ r.next());
					}
					if (mode == 0)
					{
						std::string ki = reinit(t, d, r), hr;
						Bytes want = t.m->generate(50), got = request(*t.g, 50, r, d, hr);
						same(strf("drbg-after-limit:%s", d.name), got, want, ki);
						std::vector<uint8_t> big(t.g->MaxRequestSize() + 1);
						expect(outcome([&] { t.g->Generate(big); }) == Threw, strf("drbg-request-limit:%s", d.name), "a request of %zu bytes accepted", big.size());
						expect(std::all_of(big.begin(), big.end(), [](uint8_t c) { return c == 0; }), strf("drbg-request-limit-writes:%s", d.name), "a refused request wrote to its output");
						want = t.m->generate(50); got = request(*t.g, 50, r, d, hr);
						same(strf("drbg-after-refusal:%s", d.name), got, want, ki);
					}
				});
}
