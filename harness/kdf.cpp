// Key derivation functions against reference models: output as one stream over several requests,
// re-initialisation equal to a fresh instance, and the output limits.
#include "ref.h"
#include "KdfFromName.h"
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SCBKDF.h"
#include "SHAKE.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
#include <memory>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using CEX::Kdf::IKdf;

enum Kind { HK, K2, PB, SC, SH };
struct Def { const char* name; Kdfs e; Kind k; int bits; size_t block; };
static const std::vector<Def> ALL = {
	{ "HKDF256", Kdfs::HKDF256, HK, 256, 32 }, { "HKDF512", Kdfs::HKDF512, HK, 512, 64 }, { "KDF2-256", Kdfs::KDF2256, K2, 256, 32 }, { "KDF2-512", Kdfs::KDF2512, K2, 512, 64 },
	{ "PBKDF2-256", Kdfs::PBKDF2256, PB, 256, 32 }, { "PBKDF2-512", Kdfs::PBKDF2512, PB, 512, 64 }, { "SCBKDF128", Kdfs::SCBKDF128, SC, 128, 168 }, { "SCBKDF256", Kdfs::SCBKDF256, SC, 256, 136 }, { "SCBKDF512", Kdfs::SCBKDF512, SC, 512, 72 },
	{ "SHAKE128", Kdfs::SHAKE128, SH, 128, 168 }, { "SHAKE256", Kdfs::SHAKE256, SH, 256, 136 }, { "SHAKE512", Kdfs::SHAKE512, SH, 512, 72 } };

struct Params { Bytes key, iv, info; uint32_t cost = 1; size_t mem = 0; };
static Params paramsFor(const Def& d, Rng& r)
{
	Params p;
	size_t kb = d.k == HK || d.k == K2 || d.k == PB ? d.bits / 4 : d.block;
	size_t least = d.k == PB || d.k == SH ? 8 : 16;
	p.key = r.bytes(std::max<size_t>(least, r.chance(30) ? kb + r.below(3) - 1 : r.chance(50) ? r.range(8, 80) : r.range(8, 300)));
	bool salt = r.chance(55), info = r.chance(45);
	size_t ls = d.k == HK ? 8 : 4;         // HMAC takes no key, so HKDF no salt, below eight bytes
	if (salt) p.iv = r.bytes(r.chance(60) ? r.range(ls, 40) : r.range(ls, 300));
	if (info) p.info = r.bytes(r.chance(60) ? r.range(1, 40) : r.range(1, 300));
	// a salt or an info of its own must reach the minimum of four bytes
	if (d.k == PB && p.iv.size() + p.info.size() > 0 && p.iv.size() + p.info.size() < 4) p.info = r.bytes(9);
	p.cost = d.k == PB ? r.chance(10) ? r.range(50, 300) : r.range(1, 12) : d.k == SC ? r.range(1, 40) : 1;
	if (d.k == SC && r.chance(60)) p.mem = 1;
	return p;
}
// what a sequence of requests returns: requests are cut out of the stream at whole blocks
struct Model
{
	const Def& d; const Params p; size_t pos = 0; std::unique_ptr<ref::Scbkdf> sc;
	Model(const Def& f, const Params& q) : d(f), p(q) { if (d.k == SC) sc.reset(new ref::Scbkdf(d.block, p.key, p.iv, p.info, p.cost, p.mem)); }
	Bytes next(size_t n)
	{
		if (d.k == SC) return sc->generate(n);
		size_t end = pos + n;
		Bytes s;
		switch (d.k)
		{
			case HK: s = ref::hkdfExpand(d.bits, p.iv.empty() ? p.key : ref::hkdfExtract(d.bits, p.iv, p.key), p.info, end); break;
			case K2: s = ref::kdf2(d.bits, p.key, p.iv, p.info, end); break;
			case PB: s = ref::pbkdf2(d.bits, p.key, ref::cat({ p.iv, p.info }), p.cost, end); break;
			default: s = ref::shakeKdf(d.block, p.key, p.iv, p.info, end); break;
		}
		s.erase(s.begin(), s.begin() + pos);
		pos = (end + d.block - 1) / d.block * d.block;
		return s;
	}
	size_t blocks() const { return pos / d.block; }
};
static void init(IKdf& g, const Def& d, const Params& p, Rng& r, std::string& how)
{
	if (d.k == PB) static_cast<Kdf::PBKDF2&>(g).Iterations() = p.cost;
	if (d.k == SC) { static_cast<Kdf::SCBKDF&>(g).CpuCost() = p.cost; static_cast<Kdf::SCBKDF&>(g).MemoryCost() = p.mem; }
	unsigned form = r.below(8);
	if (d.k == SH && form >= 4)
	{
		Kdf::SHAKE& s = static_cast<Kdf::SHAKE&>(g);
		SecureVector<uint8_t> k(p.key.begin(), p.key.end()), v(p.iv.begin(), p.iv.end()), i(p.info.begin(), p.info.end());
		if (p.iv.empty() && p.info.empty()) { if (form == 4) s.Initialize(p.key); else if (form == 5) s.Initialize(k); else { Bytes x = r.bytes(5); x.insert(x.end(), p.key.begin(), p.key.end()); x.push_back(1); SecureVector<uint8_t> y(x.begin(), x.end()); if (form == 6) s.Initialize(x, 5, p.key.size()); else s.Initialize(y, 5, p.key.size()); } }
		else if (p.info.empty()) { if (form == 4) s.Initialize(p.key, p.iv); else s.Initialize(k, v); }
		else { if (form == 4) s.Initialize(p.key, p.iv, p.info); else s.Initialize(k, v, i); }
		how = "arrays";
	}
	else { Cipher::SymmetricKey sk(p.key, p.iv, p.info); g.Initialize(sk); how = "key container"; }
}
static IKdf* make(const Def& d, Rng& r)
{
	if (r.chance(50)) return Helper::KdfFromName::GetInstance(d.e);
	SHA2Digests h = d.bits == 256 ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512;
	ShakeModes m = d.bits == 128 ? ShakeModes::SHAKE128 : d.bits == 256 ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512;
	switch (d.k) { case HK: return new Kdf::HKDF(h); case K2: return new Kdf::KDF2(h); case PB: return new Kdf::PBKDF2(h, 3); case SC: return new Kdf::SCBKDF(m, 2, 0); default: return new Kdf::SHAKE(m); }
}
static Bytes request(IKdf& g, size_t n, Rng& r, const Def& d, std::string& how)
{
	unsigned form = r.below(4);
	size_t off = r.range(0, 40), pad = r.below(9);
	Bytes o;
	if (form == 0) { std::vector<uint8_t> v(n, 0xA7); g.Generate(v); how = "vector"; return v; }
	if (form == 1) { SecureVector<uint8_t> v(n, 0xA7); g.Generate(v); how = "secure vector"; return Bytes(v.begin(), v.end()); }
	if (form == 2) { std::vector<uint8_t> v(off + n + pad, 0xA7); g.Generate(v, off, n); o = v; how = strf("vector at %zu", off); }
	else { SecureVector<uint8_t> v(off + n + pad, 0xA7); g.Generate(v, off, n); o.assign(v.begin(), v.end()); how = strf("secure vector at %zu", off); }
	for (size_t j = 0; j < o.size(); ++j) if ((j < off || j >= off + n) && o[j] != 0xA7) { fail(strf("kdf-writes-outside:%s", d.name), "byte %zu outside [%zu,%zu) changed", j, off, off + n); break; }
	return ref::sub(o, off, n);
}

void cases()
{
	if (part("stream"))
		for (auto& d : ALL)
			for (size_t i = 0; i < reps(60, 1500); ++i)
				run(strf("kdf-%s#%zu", d.name, i), [&d](Rng& r)
				{
					std::unique_ptr<IKdf> g(make(d, r));
					for (int u = 0; u < 4; ++u)
					{
						Params p = paramsFor(d, r);
						std::string hi, hr;
						if (u && r.chance(20)) g->Reset();
						init(*g, d, p, r, hi);
						Model m(d, p);
						size_t calls = r.chance(50) ? 1 : r.range(2, 4);
						for (size_t c = 0; c < calls; ++c)
						{
							size_t n = r.chance(50) ? r.range(1, 100) : std::max<size_t>(1, r.length(d.block, 5));
							Bytes want = m.next(n), got = request(*g, n, r, d, hr);
							std::string ctx = strf("key %zu bytes, salt %zu, info %zu, cost %u, memory %zu, use %d, request %zu of %zu bytes, %s, %s", p.key.size(), p.iv.size(), p.info.size(), p.cost, p.mem, u, c, n, hi.c_str(), hr.c_str());
							same(strf("kdf:%s%s", d.name, c ? "-next" : u ? "-reinit" : ""), got, want, ctx);
							seen(d.name, hash(got) ^ mix(hash(p.key)));
							count("requests"); count("bytes", n);
							if (u == 0 && c == 0 && r.chance(2)) sample(std::string(d.name) + ": " + ctx + " -> " + hex(got, 16));
						}
					}
				});
	if (part("extract"))
		for (size_t i = 0; i < reps(200, 4000); ++i)
			run(strf("extract#%zu", i), [](Rng& r)
			{
				bool b = r.chance(50);
				Kdf::HKDF g(b ? SHA2Digests::SHA2256 : SHA2Digests::SHA2512);
				int bits = b ? 256 : 512;
				Bytes key = r.bytes(r.range(1, 300)), salt = r.bytes(r.chance(30) ? 0 : r.range(8, 200));
				Bytes want = ref::hkdfExtract(bits, salt, key);
				std::vector<uint8_t> o(bits / 8); g.Extract(key, salt, o);
				same("hkdf-extract", o, want, strf("%d key %zu salt %zu", bits, key.size(), salt.size()));
				SecureVector<uint8_t> so(bits / 8), sk(key.begin(), key.end()), ss(salt.begin(), salt.end()); g.Extract(sk, ss, so);
				sameV("hkdf-extract-secure", so, want, strf("%d key %zu salt %zu", bits, key.size(), salt.size()));
				seen("extract", hash(o)); count("extractions", 2);
			});
	// long outputs: block counters beyond one byte, and beyond two
	if (part("long"))
		for (auto& d : ALL)
			if (d.k == PB || d.k == SH)
				for (size_t i = 0; i < reps(1, 6); ++i)
					run(strf("long-%s#%zu", d.name, i), [&d, i](Rng& r)
					{
						std::unique_ptr<IKdf> g(make(d, r));
						Params p = paramsFor(d, r);
						p.cost = 1;
						std::string hi, hr;
						init(*g, d, p, r, hi);
						size_t n = d.block * (i == 0 && d.k == PB ? r.range(65537, 66000) : r.range(257, 1200)) + r.below(d.block);
						Model m(d, p);
						std::vector<size_t> parts;
						for (size_t left = n; left;) { size_t q = r.chance(30) ? left : r.range(1, left); if (q > d.block) q -= q % d.block; parts.push_back(q); left -= q; if (parts.size() == 4 && left) { parts.push_back(left); break; } }
						size_t total = 0;
						for (auto q : parts) total += q;
						Bytes want = Model(d, p).next(total + 6 * d.block);
						size_t pos = 0;
						for (auto q : parts)
						{
							Bytes got = request(*g, q, r, d, hr);
							same(strf("kdf:%s-long", d.name), got, ref::sub(want, pos, q), strf("bytes %zu to %zu, %s", pos, pos + q, hr.c_str()));
							pos = (pos + q + d.block - 1) / d.block * d.block;
							seen(d.name, hash(got)); count("bytes", q);
						}
					});
	// the counter-based functions refuse to run past their last block instead of repeating output
	if (part("limit"))
		for (auto& d : ALL)
			if (d.k == HK || d.k == K2)
				for (size_t i = 0; i < reps(12, 200); ++i)
					run(strf("limit-%s#%zu", d.name, i), [&d](Rng& r)
					{
						std::unique_ptr<IKdf> g(make(d, r));
						Params p = paramsFor(d, r);
						std::string hi, hr;
						init(*g, d, p, r, hi);
						std::set<Bytes> blocks;
						size_t total = 0, refused = 0;
						for (int c = 0; c < 400 && refused < 3; ++c)
						{
							size_t n = r.chance(50) ? r.range(1, d.block) : r.range(1, 40 * d.block);
							Bytes got;
							if (outcome([&] { got = request(*g, n, r, d, hr); }) != Returned) { ++refused; continue; }
							for (size_t o = 0; o + d.block <= got.size(); o += d.block)
								expect(blocks.insert(ref::sub(got, o, d.block)).second, strf("kdf-repeats:%s", d.name), "block %zu of request %d repeats earlier output (%zu blocks made)", o / d.block, c, total);
							total += (n + d.block - 1) / d.block;
						}
						expect(total <= 255, strf("kdf-limit:%s", d.name), "%zu blocks generated from one key, the limit is 255", total);
						expect(refused > 0, strf("kdf-never-refuses:%s", d.name), "%zu blocks generated and nothing refused", total);
						seen(d.name, mix(total) ^ hash(p.key)); count("blocks until refusal", total);
					});
	if (part("memory"))
		for (auto& d : ALL)
			if (d.k == SC && d.bits == 128)
				run(strf("memory-%s", d.name), [&d](Rng& r)
				{
					Params p = paramsFor(d, r);
					p.cost = 6200; p.mem = 1;
					std::string hi;
					Kdf::SCBKDF g(ShakeModes::SHAKE128, 6200, 1);
					init(g, d, p, r, hi);
					std::vector<uint8_t> o(100); g.Generate(o);
					same("scbkdf-memory", o, Model(d, p).next(100), "cost 6200, one megabyte");
					seen("memory", hash(o)); count("memory-hard derivations");
				});
}
