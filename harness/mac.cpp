// Message authentication codes against reference models.
#include "ref.h"
#include "MacFromName.h"
#include "CMAC.h"
#include "GMAC.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
#include "Poly1305.h"
#include "Keccak.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
#include <memory>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using CEX::Digest::Keccak;
typedef std::unique_ptr<Mac::IMac> Mc;

enum Kind { CM, GM, HM, KM, KP, PO };
struct Def { const char* name; Macs e; Kind k; BlockCiphers c; int bits; bool isAes; ref::Ext ext; };
static const std::vector<Def> ALL = {
	{ "CMAC-AES", Macs::CMAC, CM, BlockCiphers::AES, 0, true, ref::None }, { "CMAC-RHXH256", Macs::CMACRHXH256, CM, BlockCiphers::RHXH256, 0, true, ref::HKDF256 }, { "CMAC-RHXH512", Macs::CMACRHXH512, CM, BlockCiphers::RHXH512, 0, true, ref::HKDF512 },
	{ "CMAC-RHXS256", Macs::CMACRHXS256, CM, BlockCiphers::RHXS256, 0, true, ref::SHAKE256 }, { "CMAC-RHXS512", Macs::CMACRHXS512, CM, BlockCiphers::RHXS512, 0, true, ref::SHAKE512 }, { "CMAC-Serpent", Macs::None, CM, BlockCiphers::Serpent, 0, false, ref::None }, { "CMAC-SHXH256", Macs::None, CM, BlockCiphers::SHXH256, 0, false, ref::HKDF256 },
	{ "GMAC-AES", Macs::GMAC, GM, BlockCiphers::AES, 0, true, ref::None }, { "GMAC-RHXH256", Macs::GMACRHXH256, GM, BlockCiphers::RHXH256, 0, true, ref::HKDF256 }, { "GMAC-RHXH512", Macs::GMACRHXH512, GM, BlockCiphers::RHXH512, 0, true, ref::HKDF512 },
	{ "GMAC-RHXS256", Macs::GMACRHXS256, GM, BlockCiphers::RHXS256, 0, true, ref::SHAKE256 }, { "GMAC-RHXS512", Macs::GMACRHXS512, GM, BlockCiphers::RHXS512, 0, true, ref::SHAKE512 }, { "GMAC-Serpent", Macs::None, GM, BlockCiphers::Serpent, 0, false, ref::None },
	{ "HMAC-SHA2-256", Macs::HMACSHA2256, HM, BlockCiphers::None, 256, false, ref::None }, { "HMAC-SHA2-512", Macs::HMACSHA2512, HM, BlockCiphers::None, 512, false, ref::None },
	{ "KMAC128", Macs::KMAC128, KM, BlockCiphers::None, 168, false, ref::None }, { "KMAC256", Macs::KMAC256, KM, BlockCiphers::None, 136, false, ref::None }, { "KMAC512", Macs::KMAC512, KM, BlockCiphers::None, 72, false, ref::None },
	{ "KPA128", Macs::KPA128, KP, BlockCiphers::None, 168, false, ref::None }, { "KPA256", Macs::KPA256, KP, BlockCiphers::None, 136, false, ref::None }, { "KPA512", Macs::KPA512, KP, BlockCiphers::None, 72, false, ref::None },
	{ "Poly1305", Macs::Poly1305, PO, BlockCiphers::None, 0, false, ref::None } };

static Mac::IMac* make(const Def& d)
{
	if (d.e == Macs::None) return d.k == CM ? (Mac::IMac*)new Mac::CMAC(d.c) : new Mac::GMAC(d.c);
	if (d.e == Macs::KMAC128) return new Mac::KMAC(KmacModes::KMAC128);
	return Helper::MacFromName::GetInstance(d.e);
}
struct Keys { Bytes key, iv, info; };
static Keys keysFor(const Def& d, Rng& r)
{
	Keys k;
	switch (d.k)
	{
		case CM: case GM:
			k.key = r.bytes(d.c == BlockCiphers::AES ? r.pick(std::vector<size_t>{ 16, 24, 32 }) : r.pick(std::vector<size_t>{ 16, 24, 32, 64 }));
			if (d.k == GM) k.iv = r.bytes(r.chance(40) ? 12 : r.chance(40) ? 16 : r.range(12, 70));
			if (d.ext != ref::None && r.chance(50)) k.info = r.bytes(r.range(1, 50));
			break;
		case HM: k.key = r.bytes(r.chance(30) ? d.bits / 8 : r.chance(30) ? d.bits / 4 + r.below(3) - 1 : r.range(8, 300)); break;
		case KM:
			k.key = r.bytes(r.chance(50) ? r.range(16, 64) : r.range(16, 300));
			if (r.chance(50)) k.iv = r.bytes(r.chance(50) ? r.range(4, 40) : r.range(4, 300));
			if (r.chance(40)) k.info = r.bytes(r.chance(40) ? r.range(1, 20) : r.chance(60) ? d.bits - r.below(9) : r.range(1, 300));
			break;
		case KP: k.key = r.bytes(d.bits == 168 ? 16 : d.bits == 136 ? 32 : 64); if (r.chance(60)) k.iv = r.bytes(r.chance(50) ? r.range(1, 40) : r.range(1, 400)); break;
		case PO:
			k.key = r.bytes(32);
			if (r.chance(40)) for (auto& c : k.key) if (r.chance(60)) c = r.chance(70) ? 0xff : 0;
			// multipliers under which the accumulator is a plain sum, and so reaches the edges of its limbs
			if (r.chance(25)) { std::fill(k.key.begin(), k.key.begin() + 16, 0); if (r.chance(90)) k.key[r.chance(60) ? 0 : r.below(16)] = (uint8_t)(1 << r.below(4)); }
			break;
	}
	return k;
}
static Bytes model(const Def& d, const Keys& k, const Bytes& m, size_t out)
{
	switch (d.k)
	{
		case CM: return ref::cmac(ref::block(d.isAes, d.ext, k.key, k.info), m);
		case GM: return ref::gmac(ref::block(d.isAes, d.ext, k.key, k.info), k.iv, m);
		case HM: return ref::hmac(d.bits, k.key, m);
		case KM: return ref::kmacN(d.bits, k.key, m, k.info.empty() ? ref::str("KMAC") : k.info, k.iv, out);
		case KP: return ref::kpa(k.key, k.iv, m, out);
		default: return ref::poly1305(k.key, m);
	}
}
static size_t tagOf(const Def& d)
{
	switch (d.k) { case HM: return d.bits / 8; case KM: case KP: return d.bits == 168 ? 16 : d.bits == 136 ? 32 : 64; default: return 16; }
}
static Bytes message(const Def& d, Rng& r)
{
	size_t u = d.k == HM ? d.bits / 4 : d.k == KM ? d.bits : d.k == KP ? d.bits * 8 : 16;
	size_t n = r.chance(60) ? r.length(u, 6) : r.chance(50) ? r.below(200) : u * r.below(4) + u - 1 - r.below(5);
	Bytes m = r.bytes(n);
	if (d.k == PO && r.chance(50)) for (auto& c : m) if (r.chance(80)) c = 0xff;
	// blocks whose limbs of 26, 44 or 64 bits are at an edge
	if (d.k == PO && r.chance(40))
	{
		size_t limb = r.pick(std::vector<size_t>{ 26, 44, 64 });
		for (size_t b = 0; b + 16 <= m.size(); b += 16)
		{
			unsigned edge = 0;
			for (size_t bit = 0; bit < 128; ++bit)
			{
				if (bit % limb == 0) edge = (unsigned)r.below(4);
				bool one = edge == 0 ? false : edge == 1 || edge == 2;
				if (edge == 2 && bit % limb == 0) one = r.chance(50);
				if (edge == 3) one = r.chance(50);
				m[b + bit / 8] = (uint8_t)((m[b + bit / 8] & ~(1 << bit % 8)) | (one ? 1 << bit % 8 : 0));
			}
			if (r.chance(30)) { std::fill(m.begin() + b, m.begin() + b + 16, 0xff); m[b] = (uint8_t)(0xf9 + r.below(7)); }
		}
	}
	return m;
}
static std::string feed(Mac::IMac& d, const Bytes& m, Rng& r, size_t unit)
{
	size_t o = 0, n = 0, style = r.below(3);
	while (o < m.size())
	{
		size_t left = m.size() - o, k = style == 0 ? left : style == 1 ? std::min(left, (size_t)r.range(1, unit + 3)) : std::min(left, r.length(unit, 5));
		if (r.chance(40)) { std::vector<uint8_t> p(m.begin() + o, m.begin() + o + k); d.Update(p, 0, k); }
		else d.Update(m, o, k);
		o += k; ++n;
	}
	if (r.chance(10)) d.Update(m, m.size(), 0);
	return strf("style %zu, %zu pieces", style, n);
}

void cases()
{
	if (part("mac"))
		for (auto& d : ALL)
			for (size_t i = 0; i < reps(40, 800); ++i)
				run(strf("mac-%s#%zu", d.name, i), [&d](Rng& r)
				{
					Mc g(make(d));
					size_t tag = tagOf(d), unit = d.k == HM ? d.bits / 4 : d.bits ? d.bits : 16;
					expect(g->TagSize() == tag, strf("tag-size:%s", d.name), "TagSize() is %zu", g->TagSize());
					Keys k;
					bool keyed = false;
					for (int u = 0; u < 5; ++u)
					{
						if (!keyed || r.chance(60) || d.k != HM)
						{
							if (!keyed || r.chance(70)) k = keysFor(d, r);
							Cipher::SymmetricKey sk(k.key, k.iv, k.info);
							if (keyed && r.chance(20)) { Bytes x = message(d, r); if (!g->IsInitialized()) g->Initialize(sk); feed(*g, x, r, unit); if (r.chance(50)) g->Reset(); count("abandoned messages"); }
							g->Initialize(sk);
							keyed = true;
						}
						Bytes m = message(d, r), got;
						size_t out = (d.k == KM || d.k == KP) && r.chance(40) ? r.range(tag, tag + 400) : tag;
						std::string how;
						unsigned form = r.below(4);
						if (form == 0)
						{
							std::vector<uint8_t> o(out, 0xA7);
							g->Compute(m, o); got = o; how = "Compute";
						}
						else
						{
							how = feed(*g, m, r, unit);
							size_t off = r.chance(50) ? r.range(1, 30) : 0, pad = d.k == KM || d.k == KP ? 0 : r.below(5);
							Bytes o2;
							if (form == 1) { SecureVector<uint8_t> o(off + out + pad, 0xA7); size_t n = g->Finalize(o, off); o2.assign(o.begin(), o.end()); expect(n == out, strf("mac-size:%s", d.name), "Finalize returned %zu for %zu", n, out); how += ", secure vector"; }
							else { std::vector<uint8_t> o(off + out + pad, 0xA7); size_t n = g->Finalize(o, off); o2 = o; expect(n == out, strf("mac-size:%s", d.name), "Finalize returned %zu for %zu", n, out); }
							for (size_t j = 0; j < o2.size(); ++j) if ((j < off || j >= off + out) && o2[j] != 0xA7) { fail(strf("mac-writes-outside:%s", d.name), "byte %zu outside [%zu,%zu) changed", j, off, off + out); break; }
							got.assign(o2.begin() + off, o2.begin() + off + out);
						}
						std::string ctx = strf("key %zu bytes, salt %zu, info %zu, message %zu bytes, code %zu bytes, use %d, %s", k.key.size(), k.iv.size(), k.info.size(), m.size(), out, u, how.c_str());
						same(strf("mac:%s", d.name), got, model(d, k, m, out), ctx);
						seen(d.name, hash(m) ^ mix(hash(k.key)));
						count("codes");
						count("bytes", m.size());
						if (u == 0 && r.chance(3)) sample(std::string(d.name) + ": " + ctx + " -> " + hex(got, 16));
					}
				});
	if (part("oneshot"))
		for (size_t i = 0; i < reps(150, 3000); ++i)
			run(strf("oneshot#%zu", i), [](Rng& r)
			{
				size_t rate = r.pick(std::vector<size_t>{ 168, 136, 72 });
				Bytes key = r.bytes(r.length(rate, 3)), cust = r.bytes(r.chance(50) ? r.range(1, 40) : r.length(rate, 3)), name = r.bytes(r.chance(40) ? r.below(20) : rate - r.below(9)), m = r.bytes(r.chance(50) ? r.length(rate, 4) : rate * r.below(3) + rate - 1 - r.below(4));
				int rounds = r.chance(80) ? 24 : r.chance(50) ? 12 : 48;
				auto R = rounds == 24 ? Keccak::PermutationRounds::RX24 : rounds == 12 ? Keccak::PermutationRounds::RX12 : Keccak::PermutationRounds::RX48;
				size_t out = r.chance(50) ? r.range(1, 64) : r.length(rate, 3), off = r.below(9);
				if (out == 0) out = 1;
				std::string ctx = strf("rate %zu rounds %d key %zu custom %zu name %zu message %zu out %zu", rate, rounds, key.size(), cust.size(), name.size(), m.size(), out);
				std::vector<uint8_t> o(out, 0xA7);
				size_t mo = r.below(5); Bytes mm = r.bytes(mo); mm.insert(mm.end(), m.begin(), m.end());
				Keccak::MACP1600(key, cust, mm, mo, m.size(), o, rate, R);
				same("oneshot:mac", o, ref::kmacN(rate, key, m, ref::str("KMAC"), cust, out, rounds), ctx);
				std::vector<uint8_t> o2(off + out + 3, 0xA7);
				Keccak::CXOFP1600(m, cust, name, o2, off, out, rate, R);
				Bytes w(off, 0xA7), x = ref::cshakeRaw(rate, m, name, cust, out, rounds); w.insert(w.end(), x.begin(), x.end()); w.insert(w.end(), 3, 0xA7);
				same("oneshot:cshake", o2, w, ctx);
				std::vector<uint8_t> o3(off + out + 3, 0xA7);
				Keccak::XOFP1600(mm, mo, m.size(), o3, off, out, rate, R);
				x = ref::shake(rate, m, out, rounds); std::copy(x.begin(), x.end(), w.begin() + off);
				same("oneshot:shake", o3, w, ctx);
				seen("oneshot", hash(o) ^ hash(o2));
				count("one-shot calls", 3);
			});
}
