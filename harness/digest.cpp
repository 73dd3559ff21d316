// Message digests: sequential and tree modes against reference models, under arbitrary chunking,
// reuse, reset, parallel degree and parallel block size.
#include "ref.h"
#include "DigestFromName.h"
#include "IDigest.h"
#include "ParallelOptions.h"
#include "Blake256.h"
#include "Blake512.h"
#include "SymmetricKey.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
#include <memory>
using namespace vh;
using namespace CEX;
using Enumeration::Digests;
typedef std::unique_ptr<Digest::IDigest> Dgt;

static const std::vector<Digests> ALL = { Digests::Blake256, Digests::Blake512, Digests::SHA2256, Digests::SHA2512, Digests::SHA3256, Digests::SHA3512, Digests::Skein256, Digests::Skein512, Digests::Skein1024 };
static const char* nm(Digests d)
{
	switch (d)
	{
		case Digests::Blake256: return "Blake256"; case Digests::Blake512: return "Blake512"; case Digests::SHA2256: return "SHA2256"; case Digests::SHA2512: return "SHA2512";
		case Digests::SHA3256: return "SHA3256"; case Digests::SHA3512: return "SHA3512"; case Digests::Skein256: return "Skein256"; case Digests::Skein512: return "Skein512"; default: return "Skein1024";
	}
}
static Bytes reference(Digests d, const Bytes& m)
{
	switch (d)
	{
		case Digests::Blake256: return ref::blake2seq(false, {}, {}, {}, m);
		case Digests::Blake512: return ref::blake2seq(true, {}, {}, {}, m);
		case Digests::SHA2256: return ref::sha2(256, m);
		case Digests::SHA2512: return ref::sha2(512, m);
		case Digests::SHA3256: return ref::sha3(136, 32, m);
		case Digests::SHA3512: return ref::sha3(72, 64, m);
		case Digests::Skein256: return ref::skein(32, m);
		case Digests::Skein512: return ref::skein(64, m);
		default: return ref::skein(128, m);
	}
}
static Bytes treeReference(Digests d, size_t lanes, size_t fan0, const Bytes& m)
{
	switch (d)
	{
		case Digests::Blake256: return ref::blake2tree(false, lanes, {}, m);
		case Digests::Blake512: return ref::blake2tree(true, lanes, {}, m);
		case Digests::SHA2256: return ref::sha2Tree(256, lanes, m, fan0);
		case Digests::SHA2512: return ref::sha2Tree(512, lanes, m, fan0);
		case Digests::SHA3256: return ref::sha3Tree(136, lanes, m, fan0);
		case Digests::SHA3512: return ref::sha3Tree(72, lanes, m, fan0);
		case Digests::Skein256: return ref::skeinTree(32, lanes, m, 32, lanes);
		case Digests::Skein512: return ref::skeinTree(64, lanes, m, 64, lanes);
		default: return ref::skeinTree(128, lanes, m, 128, lanes);
	}
}
// feeds the message in random pieces through every form of Update; returns how
static std::string feed(Digest::IDigest& d, const Bytes& m, Rng& r, size_t unit)
{
	size_t o = 0, n = 0, style = r.below(4);
	while (o < m.size())
	{
		size_t left = m.size() - o, k;
		if (style == 0) k = left;
		else if (style == 1) k = std::min(left, (size_t)r.range(1, unit + 3));
		else if (style == 2) k = std::min(left, (size_t)r.range(0, 3) * unit + (r.chance(50) ? 0 : r.below(unit)));
		else k = std::min(left, r.length(unit, 40));
		switch (r.below(8))
		{
			case 0: d.Update(m[o]); k = 1; break;
			case 1: if (left >= 4) { d.Update(ref::ldle32(&m[o])); k = 4; break; } // fall through
			case 2: if (left >= 8) { d.Update(ref::ldle64(&m[o])); k = 8; break; } // fall through
			case 3: { // exactly sized, so that reading past the piece is seen
				std::vector<uint8_t> p(m.begin() + o, m.begin() + o + k);
				d.Update(p, 0, k); break; }
			default: d.Update(m, o, k);
		}
		o += k; ++n;
	}
	return strf("style %zu, %zu pieces", style, n);
}
// takes the code, at an offset with guard bytes around it
static Bytes take(Digest::IDigest& d, Rng& r, const std::string& what)
{
	size_t off = r.chance(30) ? r.range(1, 20) : 0, pad = r.chance(30) ? r.range(1, 20) : 0, n = d.DigestSize();
	std::vector<uint8_t> o(off + n + pad, 0xA7);
	d.Finalize(o, off);
	for (size_t i = 0; i < o.size(); ++i)
		if ((i < off || i >= off + n) && o[i] != 0xA7) { fail("digest-writes-outside:" + what, "byte %zu of the output vector outside [%zu,%zu) changed", i, off, off + n); break; }
	return Bytes(o.begin() + off, o.begin() + off + n);
}

// ---- parameters of the tree ------------------------------------------------------------------------
// One model for the four kinds of parameters: the fields in the order they are serialised.
struct Field { const char* name; size_t at, size; };
static uint64_t val(const Bytes& b, const Field& f) { uint64_t v = 0; for (size_t i = 0; i < f.size; ++i) v |= (uint64_t)b[f.at + i] << 8 * i; return v; }
struct SkeinP
{
	typedef Digest::SkeinParams T; static constexpr const char* name = "SkeinParams"; static const size_t head = 24, outAt = 8;
	static std::vector<Field> fields() { return { { "schema", 0, 4 }, { "version", 4, 2 }, { "reserved1", 6, 2 }, { "leaf size", 16, 1 }, { "depth", 17, 1 }, { "fan-out", 18, 1 }, { "reserved2", 19, 1 }, { "reserved3", 20, 4 } }; }
	static size_t size(uint64_t out) { return out > 24 ? out : 24; }
	static size_t code(uint64_t out) { return size(out) - 24; }
	static std::vector<size_t> outs() { return { 32, 64, 128 }; }
	static T make(const Bytes& b) { Bytes c(b.begin() + head, b.end()); T p(Bytes(b.begin(), b.begin() + 4), val(b, { "", 8, 8 }), (uint16_t)val(b, { "", 4, 2 }), b[16], b[18], b[17], c); p.Reserved1() = (uint16_t)val(b, { "", 6, 2 }); p.Reserved2() = b[19]; p.Reserved3() = (uint32_t)val(b, { "", 20, 4 }); return p; }
	// the fields the accessors show, as they would be serialised
	static Bytes shown(T& p) { Bytes b = p.ToBytes(); Bytes o(b); auto put = [&](uint64_t v, size_t at, size_t n) { for (size_t i = 0; i < n; ++i) o[at + i] = (uint8_t)(v >> 8 * i); };
		for (size_t i = 0; i < 4; ++i) o[i] = p.Schema().size() == 4 ? p.Schema()[i] : 0; put(p.Version(), 4, 2); put(p.Reserved1(), 6, 2); put(p.OutputSize(), 8, 8); put(p.LeafSize(), 16, 1); put(p.FanOut(), 18, 1); put(p.Reserved2(), 19, 1); put(p.Reserved3(), 20, 4); return o; }
};
template <class P, bool SHA2> struct ShaP
{
	typedef P T; static constexpr const char* name = SHA2 ? "SHA2Params" : "KeccakParams"; static const size_t head = 24, outAt = 6;
	static std::vector<Field> fields() { return { { "node offset", 0, 4 }, { "version", 4, 2 }, { "leaf size", 14, 4 }, { "depth", 18, 1 }, { "fan-out", 19, 1 }, { "reserved", 20, 4 } }; }
	static size_t code(uint64_t out) { return out == 32 ? 112 : 48; }
	static size_t size(uint64_t out) { return 24 + code(out); }
	static std::vector<size_t> outs() { return { 32, 64 }; }
	static T make(const Bytes& b) { Bytes c(b.begin() + head, b.end()); T p((uint32_t)val(b, { "", 0, 4 }), val(b, { "", 6, 8 }), (uint16_t)val(b, { "", 4, 2 }), (uint32_t)val(b, { "", 14, 4 }), b[19], b[18], c); p.Reserved() = (uint32_t)val(b, { "", 20, 4 }); return p; }
	static Bytes shown(T& p) { Bytes o = p.ToBytes(); auto put = [&](uint64_t v, size_t at, size_t n) { for (size_t i = 0; i < n; ++i) o[at + i] = (uint8_t)(v >> 8 * i); };
		put(p.NodeOffset(), 0, 4); put(p.Version(), 4, 2); put(p.OutputSize(), 6, 8); put(p.LeafSize(), 14, 4); put(p.FanOut(), 19, 1); put(p.Reserved(), 20, 4); return o; }
};
struct BlakeP
{
	typedef Digest::BlakeParams T; static constexpr const char* name = "BlakeParams"; static const size_t head = 12, outAt = 0;
	static std::vector<Field> fields() { return { { "key length", 1, 1 }, { "fan-out", 2, 1 }, { "depth", 3, 1 }, { "leaf length", 4, 4 }, { "node offset", 8, 1 }, { "node depth", 9, 1 }, { "inner length", 10, 1 }, { "reserved", 11, 1 } }; }
	static size_t code(uint64_t out) { return out == 32 ? 12 : 40; }
	static size_t size(uint64_t out) { return out == 32 ? 32 : 64; }
	static std::vector<size_t> outs() { return { 32, 64 }; }
	static T make(const Bytes& b) { Bytes c(b.begin() + head, b.begin() + head + code(b[0])); T p(b[0], b[1], b[2], b[3], (uint32_t)val(b, { "", 4, 4 }), b[8], b[9], b[10], c); p.Reserved() = b[11]; return p; }
	static Bytes shown(T& p) { Bytes o = p.ToBytes(); auto put = [&](uint64_t v, size_t at, size_t n) { for (size_t i = 0; i < n; ++i) o[at + i] = (uint8_t)(v >> 8 * i); };
		put(p.OutputSize(), 0, 1); put(p.KeyLength(), 1, 1); put(p.FanOut(), 2, 1); put(p.MaxDepth(), 3, 1); put(p.LeafLength(), 4, 4); put(p.NodeOffset(), 8, 1); put(p.NodeDepth(), 9, 1); put(p.InnerLength(), 10, 1); put(p.Reserved(), 11, 1); return o; }
};
// a serialised parameter block with random fields
template <class P> static Bytes block(Rng& r, size_t out)
{
	Bytes b = r.bytes(P::size(out));
	if (r.chance(30)) for (size_t i = P::head; i < b.size(); ++i) b[i] = 0;
	for (size_t i = P::head + P::code(out); i < b.size(); ++i) b[i] = 0;
	for (size_t i = 0; i < (P::outAt ? 8 : 1); ++i) b[P::outAt + i] = (uint8_t)(out >> 8 * i);
	return b;
}
template <class P> static void params(Rng& r)
{
	typedef typename P::T T;
	std::string k = P::name, e;
	size_t out = r.pick(P::outs());
	Bytes b = block<P>(r, out);
	T p = P::make(b);
	same(k + ":written", p.ToBytes(), b, strf("output size %zu", out));
	expect(p.GetHeaderSize() == b.size() && p.DistributionCodeMax() == P::code(out), k + ":sizes", "%zu bytes, of which %zu code; expected %zu and %zu", p.GetHeaderSize(), p.DistributionCodeMax(), b.size(), P::code(out));
	same(k + ":accessors", P::shown(p), b, "fields as the accessors show them");
	T q(b), c(p.Clone()); std::unique_ptr<T> d(p.DeepCopy());
	same(k + ":read", q.ToBytes(), b, "written again"); same(k + ":accessors", P::shown(q), b, "fields after reading");
	same(k + ":clone", c.ToBytes(), b, "clone"); same(k + ":clone", d->ToBytes(), b, "deep copy");
	expect(p.Equals(q) && q.Equals(p) && p.Equals(c) && c.Equals(*d) && p.GetHashCode() == q.GetHashCode(), k + ":equals", "copies are not equal");
	// any other value of any field makes other parameters
	Bytes o(b); auto fs = P::fields(); std::string what;
	if (r.chance(30))
	{
		// two bytes change in opposite directions
		std::vector<size_t> at; for (auto& f : fs) for (size_t i = 0; i < f.size; ++i) at.push_back(f.at + i); for (size_t i = 0; i < P::code(out); ++i) at.push_back(P::head + i);
		size_t x = r.pick(at), y = r.pick(at); if (x != y) { ++o[x]; --o[y]; } else ++o[x]; what = strf("bytes %zu and %zu", x, y);
	}
	else if (P::code(out) && r.chance(30)) { size_t x = P::head + r.below(P::code(out)); o[x] ^= (uint8_t)r.range(1, 255); what = strf("byte %zu", x); }
	else { auto f = r.pick(fs); o[f.at + r.below(f.size)] ^= (uint8_t)r.range(1, 255); what = f.name; }
	{ T x(o); expect(!p.Equals(x) && !x.Equals(p), k + ":differs", "parameters that differ in %s are equal", what.c_str()); }
	// copies are independent
	c.DistributionCode().assign(c.DistributionCode().size(), 0x5A); ++d->FanOut();
	same(k + ":independent", p.ToBytes(), b, "after a copy changed");
	// arrays that cannot hold what they claim are refused, and none is read past its end
	size_t n = r.chance(50) ? r.below(b.size()) : b.size() - 1;
	{ Bytes x(b.begin(), b.begin() + n); x.shrink_to_fit(); expect(outcome([&] { T y(x); }, &e) == Threw, k + ":short", "%zu bytes of %zu: %s", n, b.size(), e.c_str()); }
	{ Bytes x = r.bytes(r.pick(std::vector<size_t>{ 0, 1, 11, 23, 24, 25, 32, 63, 64, 72, 100, 128, 136, 200 })); x.shrink_to_fit(); if (x.size() > P::outAt + 8 && r.chance(60)) for (size_t i = 0; i < (P::outAt ? 8 : 1); ++i) x[P::outAt + i] = i ? 0 : (uint8_t)r.pick(std::vector<int>{ 0, 8, 16, 24, 25, 32, 33, 64, 100, 128 });
	  if (outcome([&] { T y(x); Bytes z = y.ToBytes(); T w(z); if (w.ToBytes() != z) fail(k + ":again", "a block that was read is written and read as another"); }, &e) == Returned) count("odd blocks read"); else count("odd blocks refused"); }
	// whatever the accessors did to the code, its size is what the output size gives
	size_t cn = r.chance(50) ? r.below(P::code(out) + 1) : P::code(out) + r.below(90); Bytes code = r.bytes(cn); p.DistributionCode() = code; code.resize(P::code(out));
	Bytes w(b); std::copy(code.begin(), code.end(), w.begin() + P::head); same(k + ":code", p.ToBytes(), w, strf("code of %zu bytes assigned", cn));
	// nothing is lost by being empty
	T z; expect(outcome([&] { Bytes x = z.ToBytes(); T y(x); if (!y.Equals(z)) fail(k + ":default", "default parameters are not read as they are written"); }, &e) == Returned, k + ":default", "%s", e.c_str());
	q.Reset(); expect(outcome([&] { Bytes x = q.ToBytes(); T y(x); }, &e) == Returned && !q.Equals(p), k + ":reset", "%s", e.c_str());
	seen(k, hash(b)); count("parameter blocks");
}
// the digest the parameters describe
template <class P, class D> static void described(Rng& r, Digests d)
{
	std::string k = strf("params:%s", nm(d)), e;
	size_t ds = d == Digests::Skein1024 ? 128 : d == Digests::Blake256 || d == Digests::SHA2256 || d == Digests::SHA3256 || d == Digests::Skein256 ? 32 : 64;
	Bytes b = block<P>(r, ds);
	bool blake = d == Digests::Blake256 || d == Digests::Blake512;
	size_t lanes = r.chance(80) ? 2 * r.range(1, 6) : 2 * r.range(1, 32);
	size_t fanAt = blake ? 2 : P::outAt == 8 ? 18 : 19; b[fanAt] = (uint8_t)lanes;
	if (blake) { size_t leaf = r.chance(50) ? 0 : r.range(1, 200) * ds * 2; for (int i = 0; i < 4; ++i) b[4 + i] = (uint8_t)(leaf >> 8 * i); }
	if (r.chance(15))
	{
		// parameters that do not fit this digest
		Bytes x(b); int kind = (int)r.below(2); size_t other = r.pick(P::outs());
		if (kind == 0 && other != ds) { x = block<P>(r, other); x[fanAt] = (uint8_t)lanes; if (blake) for (int i = 0; i < 4; ++i) x[4 + i] = 0; } else x[fanAt] = r.chance(50) ? 0 : (uint8_t)r.range(65, 255);
		typename P::T p = P::make(x);
		expect(outcome([&] { D y(p); }, &e) == Threw, k + ":refused", "output size %zu, fan-out %u: %s", (size_t)val(x, { "", P::outAt, 1 }), x[fanAt], e.c_str());
		seen(k + "-refused", hash(x)); count("parameters refused"); return;
	}
	typename P::T p = P::make(b);
	D g(p); size_t bs = g.BlockSize();
	Bytes keep = b;
	for (int i = 0; i < 2; ++i)
	{
		Bytes m = r.bytes(r.chance(60) ? r.length(bs, 5 * lanes) : r.length(lanes * bs, 5));
		if (r.chance(15)) { Bytes x = r.bytes(r.below(3 * lanes * bs)); feed(g, x, r, bs); g.Reset(); }
		std::string how = feed(g, m, r, r.chance(50) ? lanes * bs : bs);
		Bytes c = take(g, r, k), want, t(b);
		if (blake)
		{
			Bytes q(ds); q[0] = b[0]; q[1] = b[1]; q[2] = b[2]; q[3] = b[3]; for (int j = 4; j < 8; ++j) q[j] = b[j];
			if (ds == 64) { q[16] = b[9]; q[17] = b[10]; q[18] = b[11]; std::copy(b.begin() + 12, b.begin() + 52, q.begin() + 24); }
			else { q[14] = b[9]; q[15] = b[10]; q[16] = b[11]; std::copy(b.begin() + 12, b.begin() + 24, q.begin() + 20); }
			want = ref::blake2tree(ds == 64, lanes, {}, m, q);
		}
		else if (P::outAt == 8) { t[8] = (uint8_t)(ds * 8); t[9] = (uint8_t)(ds * 8 >> 8); std::swap(t[17], t[18]); want = ref::skeinTree(ds, lanes, m, t); }
		else if (d == Digests::SHA2256 || d == Digests::SHA2512) want = ref::sha2Tree((int)ds * 8, lanes, m, b);
		else want = ref::sha3Tree(ds == 32 ? 136 : 72, lanes, m, b);
		same(k, c, want, strf("%zu lanes, message of %zu bytes, use %d, %s", lanes, m.size(), i, how.c_str()));
		seen(k, hash(c)); count("digests from parameters");
	}
	same(k + ":kept", p.ToBytes(), keep, "the caller's parameters afterwards");
}

void cases()
{
	if (part("params"))
		for (size_t i = 0; i < reps(600, 15000); ++i)
		{
			run(strf("params-skein#%zu", i), params<SkeinP>);
			run(strf("params-blake#%zu", i), params<BlakeP>);
			run(strf("params-sha2#%zu", i), params<ShaP<Digest::SHA2Params, true>>);
			run(strf("params-sha3#%zu", i), params<ShaP<Digest::KeccakParams, false>>);
		}
	if (part("described"))
		for (size_t i = 0; i < reps(60, 1200); ++i)
		{
			typedef ShaP<Digest::SHA2Params, true> S2; typedef ShaP<Digest::KeccakParams, false> S3;
			run(strf("described-Blake256#%zu", i), [](Rng& r) { described<BlakeP, Digest::Blake256>(r, Digests::Blake256); });
			run(strf("described-Blake512#%zu", i), [](Rng& r) { described<BlakeP, Digest::Blake512>(r, Digests::Blake512); });
			run(strf("described-SHA2256#%zu", i), [](Rng& r) { described<S2, Digest::SHA2256>(r, Digests::SHA2256); });
			run(strf("described-SHA2512#%zu", i), [](Rng& r) { described<S2, Digest::SHA2512>(r, Digests::SHA2512); });
			run(strf("described-SHA3256#%zu", i), [](Rng& r) { described<S3, Digest::SHA3256>(r, Digests::SHA3256); });
			run(strf("described-SHA3512#%zu", i), [](Rng& r) { described<S3, Digest::SHA3512>(r, Digests::SHA3512); });
			run(strf("described-Skein256#%zu", i), [](Rng& r) { described<SkeinP, Digest::Skein256>(r, Digests::Skein256); });
			run(strf("described-Skein512#%zu", i), [](Rng& r) { described<SkeinP, Digest::Skein512>(r, Digests::Skein512); });
			run(strf("described-Skein1024#%zu", i), [](Rng& r) { described<SkeinP, Digest::Skein1024>(r, Digests::Skein1024); });
		}
	if (part("seq"))
		for (auto d : ALL)
			for (size_t i = 0; i < reps(30, 600); ++i)
				run(strf("seq-%s#%zu", nm(d), i), [=](Rng& r)
				{
					Dgt g(Helper::DigestFromName::GetInstance(d));
					size_t bs = g->BlockSize();
					for (int k = 0; k < 6; ++k)
					{
						Bytes m = r.bytes(r.chance(85) ? r.length(bs, 12) : r.below(40000));
						if (r.chance(15))
						{
							// an abandoned message must leave nothing behind after Reset
							Bytes x = r.bytes(r.below(5 * bs));
							feed(*g, x, r, bs);
							g->Reset();
						}
						Bytes c;
						std::string how;
						if (r.chance(20)) { std::vector<uint8_t> o(g->DigestSize()); g->Compute(m, o); c = o; how = "Compute"; }
						else { how = feed(*g, m, r, bs); c = take(*g, r, nm(d)); }
						Bytes w = reference(d, m);
						same(strf("digest:%s", nm(d)), c, w, strf("message of %zu bytes, use %d of the instance, %s", m.size(), k, how.c_str()));
						seen(nm(d), hash(m));
						count("messages");
						count("bytes", m.size());
					}
				});
	if (part("keyed"))
		for (int b = 0; b < 2; ++b)
			for (size_t i = 0; i < reps(20, 300); ++i)
				run(strf("keyed-%s#%zu", b ? "Blake512" : "Blake256", i), [=](Rng& r)
				{
					size_t bs = b ? 128 : 64;
					bool par = r.chance(50);
					Dgt g(Helper::DigestFromName::GetInstance(b ? Digests::Blake512 : Digests::Blake256, par));
					size_t lanes = g->ParallelProfile().ParallelMaxDegree();
					for (int k = 0; k < 3; ++k)
					{
						Bytes key = r.bytes(b ? r.range(32, 64) : r.range(16, 32)), salt, pers, m = r.bytes(r.length(bs, par ? 40 : 10));
						if (!par && r.chance(50)) salt = r.bytes(b ? 16 : 8);
						if (!par && r.chance(50)) pers = r.bytes(b ? 16 : 8);
						
						Cipher::SymmetricKey sk(key, salt, pers);
						if (b) dynamic_cast<Digest::Blake512&>(*g).Initialize(sk); else dynamic_cast<Digest::Blake256&>(*g).Initialize(sk);
						std::string how = feed(*g, m, r, bs);
						Bytes c = take(*g, r, "keyed");
						same(strf("keyed:%s%s", b ? "Blake512" : "Blake256", par ? "-tree" : ""), c, par ? ref::blake2tree(b, lanes, key, m) : ref::blake2seq(b, key, salt, pers, m),
							strf("key %zu, salt %zu, info %zu, message %zu bytes, %s", key.size(), salt.size(), pers.size(), m.size(), how.c_str()));
						seen("keyed", hash(m) ^ hash(key));
						count("keyed messages");
					}
				});
	if (part("tree"))
		for (auto d : ALL)
			for (size_t i = 0; i < reps(30, 500); ++i)
				run(strf("tree-%s#%zu", nm(d), i), [=](Rng& r)
				{
					Dgt g(Helper::DigestFromName::GetInstance(d, true));
					size_t bs = g->BlockSize(), fan0 = g->ParallelProfile().ParallelMaxDegree();
					if (d == Digests::SHA2256 || d == Digests::SHA2512) fan0 = 8;
					for (int k = 0; k < 4; ++k)
					{
						if (r.chance(35)) { size_t n = r.chance(80) ? 2 * r.range(1, 4) : 2 * r.range(1, 32); g->ParallelMaxDegree(n); count("degree changes"); }
						size_t lanes = g->ParallelProfile().ParallelMaxDegree();
						if (r.chance(40)) { g->ParallelProfile().SetBlockSize(g->ParallelProfile().ParallelMinimumSize() * r.range(1, 6)); count("block size changes"); }
						size_t unit = lanes * bs;
						Bytes m = r.bytes(r.chance(50) ? r.length(bs, 6 * lanes) : r.chance(60) ? r.length(unit, 8) : g->ParallelProfile().ParallelBlockSize() * r.range(1, 2) + r.below(unit));
						if (r.chance(15)) { Bytes x = r.bytes(r.below(3 * unit)); feed(*g, x, r, unit); g->Reset(); }
						std::string how = feed(*g, m, r, r.chance(50) ? unit : bs);
						Bytes c = take(*g, r, strf("%s-tree", nm(d)));
						same(strf("tree:%s", nm(d)), c, treeReference(d, lanes, fan0, m), strf("message of %zu bytes, %zu lanes, parallel block %zu, use %d of the instance, %s", m.size(), lanes, g->ParallelProfile().ParallelBlockSize(), k, how.c_str()));
						seen(strf("%s-tree-%zu", nm(d), lanes), hash(m));
						count("messages");
						count("bytes", m.size());
					}
				});
	// messages whose length in bits (2^32) or in bytes (2^32) no longer fits a word
	if (part("large"))
		for (auto d : ALL)
		{
			bool skein = d == Digests::Skein256 || d == Digests::Skein512 || d == Digests::Skein1024;
			if (skein && !cfg.thorough) continue;
			run(strf("large-%s#0", nm(d)), [=](Rng& r)
			{
				Dgt g(Helper::DigestFromName::GetInstance(d));
				bool all = d == Digests::Blake256 || cfg.thorough;
				const size_t piece = 1 << 20;
				// the head puts the places where a counter wraps inside a piece
				Bytes b = r.bytes(piece), tail = r.bytes(r.range(1, 300)), head = r.bytes(r.range(65, 60000));
				size_t n = all ? 4096 : 512;
				EVP_MD_CTX* e = EVP_MD_CTX_new();
				EVP_DigestInit_ex(e, d == Digests::Blake256 ? EVP_blake2s256() : d == Digests::Blake512 ? EVP_blake2b512() : d == Digests::SHA2256 ? EVP_sha256() : d == Digests::SHA2512 ? EVP_sha512() : d == Digests::SHA3256 ? EVP_sha3_256() : EVP_sha3_512(), nullptr);
				std::unique_ptr<ref::SkeinStream> k(skein ? new ref::SkeinStream(g->DigestSize()) : nullptr);
				for (size_t i = 0; i <= n + 1; ++i)
				{
					const Bytes& x = i == 0 ? head : i <= n ? b : tail;
					b[0] = (uint8_t)i; b[1] = (uint8_t)(i >> 8);
					g->Update(x, 0, x.size());
					if (k) k->update(x); else EVP_DigestUpdate(e, x.data(), x.size());
				}
				Bytes want(g->DigestSize());
				if (k) want = k->finish(); else EVP_DigestFinal_ex(e, want.data(), nullptr);
				EVP_MD_CTX_free(e);
				std::vector<uint8_t> c(g->DigestSize());
				g->Finalize(c, 0);
				same(strf("digest:%s", nm(d)), c, want, strf("message of %zu bytes", head.size() + n * piece + tail.size()));
				seen(nm(d), hash(c));
				count("bytes", head.size() + n * piece + tail.size());
			});
		}
}
