// Key containers: what goes in comes out, through every constructor, accessor, copy, and serialised form,
// and keys that are generated come from the named source.
#include "ref.h"
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "AsymmetricSecureKey.h"
#include "CryptoException.h"
#include "IProvider.h"
#include "ProviderFromName.h"
#include "SHAKE.h"
#include "SecureVector.h"
#include "SymmetricKey.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricKeySize.h"
#include "SymmetricSecureKey.h"
#include <memory>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using namespace CEX::Cipher;
using namespace CEX::Asymmetric;
using namespace verif;

typedef SecureVector<uint8_t> SV;
static SV sv(const Bytes& b) { return SV(b.begin(), b.end()); }
static Bytes by(const SV& b) { return Bytes(b.begin(), b.end()); }

struct Fields { Bytes key, iv, info; };
static size_t len(Rng& r) { unsigned w = r.below(10); return w < 3 ? 0 : w < 8 ? r.range(1, 80) : w == 8 ? r.range(80, 700) : r.range(1, 3) * 16; }
static Fields fields(Rng& r, bool allowEmptyKey)
{
	Fields f;
	// now and then fields whose sizes just fit, and add up to more than 16 bits
	auto field = [&](bool big) { return r.bytes(big && r.chance(75) ? r.range(30000, 65535) : len(r)); };
	bool big = r.below(60) == 0;
	do { f.key = field(big); f.iv = field(big); f.info = field(big); } while (f.key.empty() && (!allowEmptyKey || (f.iv.empty() && f.info.empty())));
	return f;
}
// the documented stream: three little-endian 16-bit sizes, then key, nonce and info
static Bytes stream(const Fields& f)
{
	Bytes b;
	ref::le(b, f.key.size(), 2); ref::le(b, f.iv.size(), 2); ref::le(b, f.info.size(), 2);
	return ref::cat({ b, f.key, f.iv, f.info });
}
static bool look(const std::string& key, ISymmetricKey& k, const Fields& f, Rng& r, const std::string& ctx)
{
	bool ok = true;
	for (unsigned n = 0; n < 5 && ok; ++n) switch (n == 0 ? 6 : (unsigned)r.below(7))
	{
		case 0: ok = sameV(key + ":Key", k.Key(), f.key, ctx); break;
		case 1: ok = sameV(key + ":IV", k.IV(), f.iv, ctx); break;
		case 2: ok = sameV(key + ":Info", k.Info(), f.info, ctx); break;
		case 3: ok = sameV(key + ":SecureKey", k.SecureKey(), f.key, ctx); break;
		case 4: ok = sameV(key + ":SecureIV", k.SecureIV(), f.iv, ctx); break;
		case 5: ok = sameV(key + ":SecureInfo", k.SecureInfo(), f.info, ctx); break;
		default: ok = expect(k.KeySizes().KeySize() == f.key.size() && k.KeySizes().IVSize() == f.iv.size() && k.KeySizes().InfoSize() == f.info.size(), key + ":KeySizes", "%zu/%zu/%zu; %s", k.KeySizes().KeySize(), k.KeySizes().IVSize(), k.KeySizes().InfoSize(), ctx.c_str());
	}
	return ok && sameV(key + ":Key", k.Key(), f.key, ctx) && sameV(key + ":IV", k.IV(), f.iv, ctx) && sameV(key + ":Info", k.Info(), f.info, ctx);
}
static void streams(const std::string& key, Bytes s, const Fields& f, Rng& r, std::function<SymmetricKey*(SV&)> read)
{
	{
		SV x = sv(s);
		std::unique_ptr<SymmetricKey> k(read(x));
		look(key + ":restored", *k, f, r, strf("sizes %zu/%zu/%zu", f.key.size(), f.iv.size(), f.info.size()));
	}
	// more bytes behind the stream do not matter
	{
		Bytes y = s, more = r.bytes(r.range(1, 40)); y.insert(y.end(), more.begin(), more.end());
		SV x = sv(y);
		std::unique_ptr<SymmetricKey> k; std::string e;
		if (outcome([&] { k.reset(read(x)); }, &e) == Returned) look(key + ":restored-longer", *k, f, r, "trailing bytes");
	}
	for (int n = 0; n < 6; ++n)
	{
		size_t cut = n == 0 ? s.size() - 1 : n == 1 ? r.below(6) : r.below(s.size());
		Bytes y(s.begin(), s.begin() + cut);
		SV x = sv(y);
		std::unique_ptr<SymmetricKey> k; std::string e;
		Outcome o = outcome([&] { k.reset(read(x)); }, &e);
		expect(o == Threw, key + ":truncated", "a stream of %zu of %zu bytes: %s", cut, s.size(), o == Returned ? "accepted" : e.c_str());
		count("truncated key streams");
	}
	// lengths that claim more than there is
	for (int n = 0; n < 3; ++n)
	{
		Bytes y = s; y[2 * r.below(3) + 1] |= (uint8_t)(0x80 | r.below(128));
		size_t want = 6 + (y[0] | y[1] << 8) + (y[2] | y[3] << 8) + (y[4] | y[5] << 8);
		SV x = sv(y);
		std::unique_ptr<SymmetricKey> k; std::string e;
		Outcome o = outcome([&] { k.reset(read(x)); }, &e);
		if (want > y.size()) expect(o == Threw, key + ":claims-more", "claims %zu of %zu bytes: %s", want, y.size(), o == Returned ? "accepted" : e.c_str());
	}
}

static void symmetric(Rng& r)
{
	Fields f = fields(r, true);
	std::string ctx = strf("sizes %zu/%zu/%zu", f.key.size(), f.iv.size(), f.info.size());
	std::unique_ptr<SymmetricKey> k;
	bool sec = r.chance(50);
	if (f.iv.empty() && f.info.empty() && r.chance(60)) k.reset(sec ? new SymmetricKey(sv(f.key)) : new SymmetricKey(f.key));
	else if (f.info.empty() && r.chance(60)) k.reset(sec ? new SymmetricKey(sv(f.key), sv(f.iv)) : new SymmetricKey(f.key, f.iv));
	else k.reset(sec ? new SymmetricKey(sv(f.key), sv(f.iv), sv(f.info)) : new SymmetricKey(f.key, f.iv, f.info));
	look("key", *k, f, r, ctx);
	std::unique_ptr<SymmetricKey> c(k->Clone());
	SV s = SymmetricKey::Serialize(*k);
	sameV("key:Serialize", s, stream(f), ctx);
	look("key:after-serialize", *k, f, r, ctx);
	streams("key", by(s), f, r, [](SV& x) { return SymmetricKey::DeSerialize(x); });
	k->Reset();
	look("key:reset", *k, Fields(), r, "after Reset");
	look("key:clone", *c, f, r, ctx + ", after the original was reset");
	k.reset();
	look("key:clone", *c, f, r, ctx + ", after the original was destroyed");
	seen("symmetric key", hash(stream(f)));
	// sizes
	SymmetricKeySize z(f.key.size(), f.iv.size(), f.info.size());
	std::vector<uint8_t> zb = z.ToBytes();
	SymmetricKeySize y(zb);
	expect(y.KeySize() == f.key.size() && y.IVSize() == f.iv.size() && y.InfoSize() == f.info.size(), "sizes:restored", "%s", ctx.c_str());
	size_t cut = r.below(zb.size());
	expect(outcome([&] { SymmetricKeySize q(std::vector<uint8_t>(zb.begin(), zb.begin() + cut)); }) == Threw, "sizes:truncated", "%zu bytes accepted", cut);
	std::vector<SymmetricKeySize> set; bool hasK = false, hasKI = false, hasAll = false, hasKInfo = false;
	size_t qk = r.range(1, 4), qi = r.range(1, 3), qn = r.range(1, 3);
	for (size_t i = 0, n = r.below(6); i < n; ++i)
	{
		size_t a = r.range(1, 4), b = r.range(0, 3), d = r.range(0, 3); set.emplace_back(a, b, d);
		hasK |= a == qk; hasKI |= a == qk && b == qi; hasAll |= a == qk && b == qi && d == qn; hasKInfo |= a == qk && d == qn;
	}
	expect(SymmetricKeySize::Contains(set, qk) == hasK && SymmetricKeySize::Contains(set, qk, qi) == hasKI && SymmetricKeySize::Contains(set, qk, qi, qn) == hasAll && SymmetricKeySize::Contains(set, qk, 0, qn) == hasKInfo, "sizes:Contains", "%zu entries, looked for %zu/%zu/%zu", set.size(), qk, qi, qn);
}
static void refusals(Rng& r)
{
	Bytes n;
	expect(outcome([&] { SymmetricKey k(n); }) == Threw && outcome([&] { SymmetricKey k(n, n); }) == Threw && outcome([&] { SymmetricKey k(n, n, n); }) == Threw, "key:empty", "an empty key was accepted");
	Bytes salt = r.bytes(8), key = r.bytes(32);
	expect(outcome([&] { SymmetricSecureKey k(n); }) == Threw && outcome([&] { SymmetricSecureKey k(n, n); }) == Threw && outcome([&] { SymmetricSecureKey k(n, n, n, SecurityPolicy::SPL512, salt); }) == Threw, "securekey:empty", "an empty key was accepted");
	expect(outcome([&] { SymmetricSecureKey k(key, SecurityPolicy::None, salt); }) == Threw, "securekey:no-policy", "accepted");
	expect(outcome([&] { AsymmetricKey k(n, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::KYBERS3P2400); }) == Threw && outcome([&] { AsymmetricKey k(key, AsymmetricPrimitives::None, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::KYBERS3P2400); }) == Threw && outcome([&] { AsymmetricKey k(key, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::None, AsymmetricParameters::KYBERS3P2400); }) == Threw && outcome([&] { AsymmetricKey k(key, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::None); }) == Threw, "asymkey:none", "accepted");
	// a field too long for its size in the stream
	Fields f; f.key = r.bytes(65535 + r.below(3));
	SymmetricKey k(f.key);
	std::string e; SV s;
	Outcome o = outcome([&] { s = SymmetricKey::Serialize(k); }, &e);
	if (f.key.size() <= 65535) sameV("key:Serialize", s, stream(f), "a 65535-byte key");
	else if (o == Returned) { std::unique_ptr<SymmetricKey> q(SymmetricKey::DeSerialize(s)); sameV("key:too-long", q->Key(), f.key, "a key longer than 65535 bytes"); }
	else expect(o == Threw, "key:too-long", "%s", e.c_str());
	seen("refusals", r.next());
}

static const SecurityPolicy POLICIES[] = { SecurityPolicy::SPL256, SecurityPolicy::SPL256AE, SecurityPolicy::SPL512, SecurityPolicy::SPL512AE, SecurityPolicy::SPL1024, SecurityPolicy::SPL1024AE };
static void secure(Rng& r)
{
	Fields f = fields(r, true);
	SecurityPolicy p = POLICIES[r.below(6)];
	Bytes salt = r.bytes(r.chance(50) ? r.range(4, 20) : r.range(4, 200));
	bool plain = r.chance(30), sec = r.chance(50);
	std::string ctx = strf("sizes %zu/%zu/%zu, policy %d, salt %zu", f.key.size(), f.iv.size(), f.info.size(), plain ? 0 : (int)p, plain ? 0 : salt.size());
	std::unique_ptr<SymmetricSecureKey> k;
	unsigned parts = f.iv.empty() && f.info.empty() && r.chance(60) ? 1 : f.info.empty() && r.chance(60) ? 2 : 3;
	if (plain)
	{
		if (parts == 1) k.reset(sec ? new SymmetricSecureKey(sv(f.key)) : new SymmetricSecureKey(f.key));
		else if (parts == 2) k.reset(sec ? new SymmetricSecureKey(sv(f.key), sv(f.iv)) : new SymmetricSecureKey(f.key, f.iv));
		else k.reset(sec ? new SymmetricSecureKey(sv(f.key), sv(f.iv), sv(f.info)) : new SymmetricSecureKey(f.key, f.iv, f.info));
	}
	else
	{
		if (parts == 1) k.reset(sec ? new SymmetricSecureKey(sv(f.key), p, sv(salt)) : new SymmetricSecureKey(f.key, p, salt));
		else if (parts == 2) k.reset(sec ? new SymmetricSecureKey(sv(f.key), sv(f.iv), p, sv(salt)) : new SymmetricSecureKey(f.key, f.iv, p, salt));
		else k.reset(sec ? new SymmetricSecureKey(sv(f.key), sv(f.iv), sv(f.info), p, sv(salt)) : new SymmetricSecureKey(f.key, f.iv, f.info, p, salt));
	}
	look("securekey", *k, f, r, ctx);
	std::unique_ptr<SymmetricSecureKey> c; std::string e;
	if (expect(outcome([&] { c.reset(k->Clone()); }, &e) == Returned, "securekey:clone-throws", "%s; %s", e.c_str(), ctx.c_str())) look("securekey:clone", *c, f, r, ctx);
	SV s = SymmetricSecureKey::Serialize(*k);
	sameV("securekey:Serialize", s, stream(f), ctx);
	if (r.chance(30)) streams("securekey", by(s), f, r, [](SV& x) { return SymmetricSecureKey::DeSerialize(x); });
	k->Reset();
	look("securekey:reset", *k, Fields(), r, "after Reset");
	if (c) look("securekey:clone", *c, f, r, ctx + ", after the original was reset");
	seen(strf("secure key %d", plain ? 0 : (int)p), hash(stream(f)));
	count(strf("secure keys of policy %d", plain ? 0 : (int)p));
}

static void asymmetric(Rng& r)
{
	Bytes poly = r.bytes(r.chance(80) ? r.range(1, 400) : r.range(400, 9000));
	AsymmetricPrimitives pr = r.pick(std::vector<AsymmetricPrimitives>{ AsymmetricPrimitives::ECDH, AsymmetricPrimitives::Kyber, AsymmetricPrimitives::McEliece, AsymmetricPrimitives::Dilithium, AsymmetricPrimitives::ECDSA, AsymmetricPrimitives::SphincsPlus, AsymmetricPrimitives::XMSS, AsymmetricPrimitives::XMSSMT });
	AsymmetricKeyTypes kt = (AsymmetricKeyTypes)r.range(1, 4);
	AsymmetricParameters pa = (AsymmetricParameters)r.range(1, 30);
	std::string ctx = strf("%zu bytes, primitive %d, class %d, parameters %d", poly.size(), (int)pr, (int)kt, (int)pa);
	Bytes want = { (uint8_t)kt, (uint8_t)pa, (uint8_t)pr };
	want.insert(want.end(), poly.begin(), poly.end());
	auto look = [&](const std::string& key, auto& k) {
		expect(k.PrimitiveType() == pr && k.KeyClass() == kt && k.Parameters() == pa, key + ":types", "%s", ctx.c_str());
		return sameV(key + ":Polynomial", k.Polynomial(), poly, ctx);
	};
	auto restore = [&](const std::string& key, const SV& s, std::function<AsymmetricKey*(SV&)> read) {
		SV x = s;
		std::unique_ptr<AsymmetricKey> k(read(x));
		look(key + ":restored", *k);
		for (int n = 0; n < 4; ++n)
		{
			SV y(s.begin(), s.begin() + n); std::unique_ptr<AsymmetricKey> q; std::string e;
			Outcome o = outcome([&] { q.reset(read(y)); }, &e);
			expect(o == Threw, key + ":truncated", "%d bytes: %s", n, o == Returned ? "accepted" : e.c_str());
		}
	};
	{
		std::unique_ptr<AsymmetricKey> k(r.chance(50) ? new AsymmetricKey(poly, pr, kt, pa) : new AsymmetricKey(sv(poly), pr, kt, pa));
		look("asymkey", *k);
		sameV("asymkey:SecurePolynomial", k->SecurePolynomial(), poly, ctx);
		SV s = AsymmetricKey::Serialize(*k);
		sameV("asymkey:Serialize", s, want, ctx);
		restore("asymkey", s, [](SV& x) { return AsymmetricKey::DeSerialize(x); });
		if (r.chance(50))
		{
			Bytes old = poly; poly = r.bytes(poly.size());
			k->Update(poly); look("asymkey:Update", *k);
			expect(outcome([&] { k->Update(r.bytes(poly.size() + 1)); }) == Threw, "asymkey:Update-size", "another size accepted");
			look("asymkey:Update", *k);
			poly = old;
		}
		k->Reset();
		expect(k->Polynomial().empty() && k->KeyClass() == AsymmetricKeyTypes::None && k->PrimitiveType() == AsymmetricPrimitives::None && k->Parameters() == AsymmetricParameters::None, "asymkey:reset", "%s", ctx.c_str());
	}
	{
		SecurityPolicy p = POLICIES[r.below(6)];
		Bytes salt = r.bytes(r.chance(20) ? 0 : r.range(4, 100));
		ctx += strf(", policy %d, salt %zu", (int)p, salt.size());
		std::unique_ptr<AsymmetricSecureKey> k(r.chance(50) ? new AsymmetricSecureKey(poly, salt, pr, kt, pa, p) : new AsymmetricSecureKey(sv(poly), sv(salt), pr, kt, pa, p));
		look("asymsecure", *k);
		for (int n = 0; n < 2; ++n)
		{
			size_t pad = n ? r.range(1, 90) : 0;
			SV o(poly.size() + pad, 0xA7);
			std::string e;
			if (!expect(outcome([&] { k->SecurePolynomial(o); }, &e) == Returned, "asymsecure:SecurePolynomial", "threw %s; %s", e.c_str(), ctx.c_str())) continue;
			sameV("asymsecure:SecurePolynomial", SV(o.begin(), o.begin() + poly.size()), poly, ctx);
			bool clean = true; for (size_t i = poly.size(); i < o.size(); ++i) clean &= o[i] == 0xA7;
			expect(clean, "asymsecure:SecurePolynomial-beyond", "wrote behind the polynomial; %s", ctx.c_str());
		}
		if (poly.size() > 1) { SV o(r.below(poly.size())); expect(outcome([&] { k->SecurePolynomial(o); }) == Threw, "asymsecure:short-output", "accepted %zu of %zu", o.size(), poly.size()); }
		SV s = AsymmetricSecureKey::Serialize(*k);
		sameV("asymsecure:Serialize", s, want, ctx);
		restore("asymsecure", s, [](SV& x) { return AsymmetricSecureKey::DeSerialize(x); });
		k->Reset();
		Bytes q; std::string e;
		if (expect(outcome([&] { q = k->Polynomial(); }, &e) != ThrewForeign, "asymsecure:reset", "threw %s", e.c_str())) expect(q.empty() && k->KeyClass() == AsymmetricKeyTypes::None, "asymsecure:reset", "%zu bytes left", q.size());
		count(strf("asymmetric secure keys of policy %d", (int)p));
	}
	{
		Bytes tag = r.bytes(r.below(40)), t2 = tag;
		AsymmetricKeyPair kp(new AsymmetricKey(poly, pr, kt, pa), new AsymmetricKey(poly, pr, kt, pa), t2);
		look("pair:private", *kp.PrivateKey()); look("pair:public", *kp.PublicKey());
		sameV("pair:tag", kp.Tag(), tag, ctx);
	}
	seen("asymmetric key", hash(want));
}

// keys and bytes of the generator are the named expansion of the named source's output
static void generator(Rng& r)
{
	SecurityPolicy p = POLICIES[r.below(6)];
	Providers pv = r.chance(80) ? Providers::CSP : Providers::RDP;
	bool wide = p == SecurityPolicy::SPL512 || p == SecurityPolicy::SPL512AE;
	uint64_t seed = r.next() | 1;
	// the source's output, field by field
	Bytes custom; size_t rate = wide ? 72 : 136;
	{
		Kdf::SHAKE g(wide ? ShakeModes::SHAKE512 : ShakeModes::SHAKE256);
		std::unique_ptr<Provider::IProvider> q(Helper::ProviderFromName::GetInstance(pv));
		custom = ref::str("SymmetricKeyGenerator" + q->Name() + g.Name());
	}
	size_t most = 3;
	std::vector<Bytes> seeds;
	rt_reset(); rt_det = seed;
	for (size_t i = 0; i < most; ++i) { std::unique_ptr<Provider::IProvider> q(Helper::ProviderFromName::GetInstance(pv)); std::vector<uint8_t> s(wide ? 64 : 32); q->Generate(s); seeds.push_back(s); }
	auto want = [&](size_t i, size_t n) { return ref::shakeKdf(rate, seeds[i], custom, Bytes(), n); };
	std::string ctx = strf("policy %d, provider %d", (int)p, (int)pv);
	SymmetricKeyGenerator g(p, pv);
	rt_reset(); rt_det = seed;
	unsigned form = r.below(4);
	if (form < 2)
	{
		size_t n = r.range(1, 300), off = form ? r.below(40) : 0, pad = form ? r.below(40) : 0;
		if (form == 0) sameV("generator:Generate", g.Generate(n), want(0, n), ctx);
		else
		{
			SV o(off + n + pad, 0xA7); g.Generate(o, off, n);
			Bytes e(off, 0xA7), w = want(0, n); e.insert(e.end(), w.begin(), w.end()); e.resize(off + n + pad, 0xA7);
			sameV("generator:Generate-range", o, e, ctx);
			rt_det = seed;
			expect(outcome([&] { g.Generate(o, off, o.size() - off + 1); }) == Threw && outcome([&] { g.Generate(o, o.size() + 1, 1); }) == Threw && outcome([&] { g.Generate(o, (size_t)-3, 4); }) == Threw && outcome([&] { g.Generate(o, off, 0); }) == Threw, "generator:range", "a range beyond the vector was accepted; %s", ctx.c_str());
			sameV("generator:range", o, e, "changed by a refused request");
		}
	}
	else
	{
		size_t k = r.range(1, 150), v = r.chance(30) ? 0 : r.range(1, 100), i = r.chance(30) ? 0 : r.range(1, 100);
		ctx += strf(", sizes %zu/%zu/%zu", k, v, i);
		SymmetricKeySize z(k, v, i);
		Fields f; size_t at = 0;
		f.key = want(at++, k); if (v) f.iv = want(at++, v); if (i) f.info = want(at++, i);
		std::unique_ptr<ISymmetricKey> x(form == 2 ? (ISymmetricKey*)g.GetSymmetricKey(z) : (ISymmetricKey*)g.GetSecureKey(z));
		look(form == 2 ? "generator:GetSymmetricKey" : "generator:GetSecureKey", *x, f, r, ctx);
		SymmetricKeySize none(0, v, i);
		expect(outcome([&] { x.reset(g.GetSymmetricKey(none)); }) == Threw, "generator:no-key", "a key of no size was made");
	}
	seen("generator " + ctx, seed);
	// a source that fails gives no key
	rt_reset(); rt_fail_crypt = 1; rt_fail_rdrand = 1;
	SV o(64, 0xA7); std::string e;
	Outcome oc = outcome([&] { g.Generate(o, 0, 64); }, &e);
	expect(oc == Threw, "generator:failed-source", "%s; %s", oc == Returned ? "returned" : e.c_str(), ctx.c_str());
	rt_reset();
	expect(outcome([&] { SymmetricKeyGenerator q(SecurityPolicy::None, Providers::CSP); }) == Threw && outcome([&] { SymmetricKeyGenerator q(p, Providers::None); }) == Threw, "generator:none", "accepted");
}

void cases()
{
	if (part("symmetric")) { for (size_t i = 0; i < reps(20000, 600000); ++i) run(strf("symmetric#%zu", i), symmetric); for (size_t i = 0; i < reps(30, 600); ++i) run(strf("refusals#%zu", i), refusals); }
	if (part("secure")) for (size_t i = 0; i < reps(8000, 300000); ++i) run(strf("secure#%zu", i), secure);
	if (part("asymmetric")) for (size_t i = 0; i < reps(8000, 300000); ++i) run(strf("asymmetric#%zu", i), asymmetric);
	if (part("generator")) for (size_t i = 0; i < reps(8000, 300000); ++i) run(strf("generator#%zu", i), generator);
}
