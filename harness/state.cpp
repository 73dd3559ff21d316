// What an instance says of itself is what it does: after every step of a random history its state and sizes
// are asked for and compared with what a working call then does.
#include "h.h"
#include "names_tab.h"
#include "jobs.h"
#include "AsymmetricCipherFromName.h"
#include "AsymmetricSignerFromName.h"
#include "CTR.h"
#include "ICM.h"
#include "CBC.h"
#include "GCM.h"
#include "HBA.h"
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#include "SCBKDF.h"
#include "ECDH.h"
#include <algorithm>
#include <memory>

using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using CEX::Cipher::SymmetricKey;
using CEX::Cipher::SymmetricKeySize;
typedef std::vector<uint8_t> V;
template<class T> using Ptr = std::unique_ptr<T>;

// a working call succeeds exactly when the instance says it is ready
static bool ready(const std::string& k, bool says, const std::function<void()>& work, const std::string& ctx)
{
	std::string e;
	Outcome o = outcome(work, &e);
	count(says ? "ready instances worked" : "instances not ready refused");
	if (says) return expect(o == Returned, k + ":ready", "says it is ready, but: %s; %s", e.c_str(), ctx.c_str());
	return expect(o == Threw, k + ":not-ready", "says it is not ready, but %s %s; %s", o == Returned ? "worked" : "raised", e.c_str(), ctx.c_str());
}
static SymmetricKey keyOf(Rng& r, const SymmetricKeySize& s, bool info = false)
{
	SymmetricKeySize z(s);
	V k = r.bytes(z.KeySize()), i = z.IVSize() ? r.bytes(z.IVSize()) : V(), f = info ? r.bytes(r.range(1, z.InfoSize() ? z.InfoSize() : 16)) : V();
	return i.empty() ? SymmetricKey(k) : f.empty() ? SymmetricKey(k, i) : SymmetricKey(k, i, f);
}
// the profile and the instance agree, whoever was told
template<class C> static void agree(const std::string& k, C& c, Rng& r, const std::string& ctx)
{
	auto& p = c.ParallelProfile();
	expect(c.IsParallel() == p.IsParallel() && c.ParallelBlockSize() == p.ParallelBlockSize(), k + ":profile", "the instance says %d %zu, its profile %d %zu; %s", (int)c.IsParallel(), c.ParallelBlockSize(), (int)p.IsParallel(), p.ParallelBlockSize(), ctx.c_str());
	(void)r;
}
template<class C> static void steer(const std::string& k, C& c, Rng& r, bool par, std::string& ctx)
{
	auto& p = c.ParallelProfile();
	switch (r.below(4))
	{
		case 0: { bool b = par && r.chance(50); p.IsParallel() = b; ctx += strf(" parallel=%d", b); expect(c.IsParallel() == b, k + ":parallel", "told %d; %s", b, ctx.c_str()); break; }
		case 1: { size_t n = p.ParallelMinimumSize() * r.range(1, 5); p.SetBlockSize(n); ctx += strf(" block=%zu", n); expect(c.ParallelBlockSize() == n, k + ":block", "told %zu, says %zu; %s", n, c.ParallelBlockSize(), ctx.c_str()); break; }
		case 2: { if (!par || p.ProcessorCount() < 2) break; size_t n = 2 * r.range(1, p.ProcessorCount() / 2); if (outcome([&] { c.ParallelMaxDegree(n); }) == Returned) expect(p.ParallelMaxDegree() == n, k + ":degree", "told %zu, says %zu; %s", n, p.ParallelMaxDegree(), ctx.c_str()); ctx += strf(" degree=%zu", n); break; }
		default: break;
	}
	agree(k, c, r, ctx);
}

static void block(Rng& r, const std::pair<std::string, BlockCiphers>& b)
{
	Ptr<Cipher::Block::IBlockCipher> c(Helper::BlockCipherFromName::GetInstance(b.second));
	std::string k = "state:" + b.first, ctx = "new"; bool init = false, enc = false;
	const std::string name = c->Name();
	for (size_t i = 0; i < 6; ++i)
	{
		V in = r.bytes(16), out(16), back(16);
		expect(c->IsInitialized() == init && (!init || c->IsEncryption() == enc) && c->BlockSize() == 16 && c->Name() == name && c->Enumeral() == b.second, k + ":says", "initialised %d encrypting %d block %zu name %s; %s", c->IsInitialized(), c->IsEncryption(), c->BlockSize(), c->Name().c_str(), ctx.c_str());
		if (init)
		{
			bool x = c->IsEncryption(); x ? c->EncryptBlock(in, out) : c->DecryptBlock(in, out); c->Transform(in, back);
			expect(out == back, k + ":direction", "says encrypting %d, but does the other; %s", x, ctx.c_str());
		}
		auto ks = c->LegalKeySizes();
		if (!expect(!ks.empty(), k + ":legal", "no key size listed")) return;
		switch (r.below(3))
		{
			case 0: { auto s = r.pick(ks); bool e = r.chance(50); SymmetricKey kp(r.bytes(s.KeySize())); std::string er; if (!expect(outcome([&] { c->Initialize(e, kp); }, &er) == Returned, k + ":legal", "a listed key size of %zu is refused: %s; %s", (size_t)s.KeySize(), er.c_str(), ctx.c_str())) return; init = true; enc = e; ctx += strf(" init%d(%zu)", e, (size_t)s.KeySize()); break; }
			case 1:
			{
				size_t n = r.range(1, 140); bool in = false; for (auto s : ks) in |= s.KeySize() == n;
				SymmetricKey kp(r.bytes(n)); bool e = !enc; Outcome o = outcome([&] { c->Initialize(e, kp); });
				expect((o == Returned) == in, k + ":listed", "a key of %zu bytes, listed %d, was %s; %s", n, in, o == Returned ? "taken" : "refused", ctx.c_str());
				if (o == Returned) { init = true; enc = e; } ctx += strf(" try%d(%zu)", e, n); break;
			}
			default: break;
		}
		seen(k, hash(ctx));
	}
}
static void mode(Rng& r, const std::pair<std::string, BlockCiphers>& b)
{
	auto m = r.pick(std::vector<CipherModes>{ CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM });
	Ptr<Cipher::Block::Mode::ICipherMode> c(Helper::CipherModeFromName::GetInstance(b.second, m));
	std::string k = "state:mode:" + CipherModeConvert::ToName(m), ctx = b.first + " new"; bool init = false, enc = false;
	Ptr<SymmetricKey> kp(new SymmetricKey(r.bytes(32), r.bytes(16)));
	for (size_t i = 0; i < 8; ++i)
	{
		expect(c->IsInitialized() == init && (!init || c->IsEncryption() == enc), k + ":says", "initialised %d encrypting %d; %s", c->IsInitialized(), c->IsEncryption(), ctx.c_str());
		expect(c->Engine() && c->Engine()->Enumeral() == b.second && c->CipherType() == b.second && c->BlockSize() == 16 && c->Enumeral() == m && c->Engine()->IsInitialized() == init, k + ":engine", "type %s, engine initialised %d; %s", BlockCipherConvert::ToName(c->CipherType()).c_str(), c->Engine()->IsInitialized(), ctx.c_str());
		if (m != CipherModes::OFB) agree(k, *c, r, ctx);      // output feedback is never parallel, whatever its profile says
		if (init)
		{
			// the direction it says is the one it takes
			V in = r.bytes(16 * r.range(1, 5)), out(in.size()), back(in.size());
			bool e = c->IsEncryption();
			V iv = r.bytes(16); SymmetricKey kk(kp->Key(), iv), ko(kp->Key(), iv);
			c->Initialize(e, kk); c->Transform(in, 0, out, 0, in.size());
			Ptr<Cipher::Block::Mode::ICipherMode> o(Helper::CipherModeFromName::GetInstance(b.second, m)); o->Initialize(!e, ko); o->Transform(out, 0, back, 0, in.size());
			expect(back == in && c->IsEncryption() == e, k + ":direction", "says encrypting %d, but the other direction does not undo it; %s", e, ctx.c_str());
		}
		switch (r.below(4))
		{
			case 0: case 1: { auto s = r.pick(c->LegalKeySizes()); bool e = r.chance(50); kp.reset(new SymmetricKey(r.bytes(s.KeySize()), r.bytes(16))); std::string er; if (!expect(outcome([&] { c->Initialize(e, *kp); }, &er) == Returned, k + ":legal", "a listed key size of %zu is refused: %s; %s", (size_t)s.KeySize(), er.c_str(), ctx.c_str())) return; init = true; enc = e; ctx += strf(" init%d(%zu)", e, (size_t)s.KeySize()); break; }
			case 2: { SymmetricKey bad(r.bytes(r.range(1, 15)), r.bytes(16)); expect(outcome([&] { c->Initialize(!enc, bad); }) == Threw, k + ":bad", "a short key was taken; %s", ctx.c_str()); ctx += " bad"; break; }
			default: if (m != CipherModes::OFB) steer(k, *c, r, true, ctx);
		}
		seen(k, hash(ctx));
	}
}
static void aead(Rng& r)
{
	auto m = r.pick(std::vector<AeadModes>{ AeadModes::GCM, AeadModes::HBAH256, AeadModes::HBAH512, AeadModes::HBAS256, AeadModes::HBAS512 });
	auto b = r.pick(std::vector<BlockCiphers>{ BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXS256, BlockCiphers::SHXH256 });
	Ptr<Cipher::Block::Mode::IAeadMode> c(Helper::AeadModeFromName::GetInstance(b, m));
	std::string k = "state:aead:" + AeadModeConvert::ToName(m), ctx = BlockCipherConvert::ToName(b) + " new"; bool init = false, enc = false, done = false;
	Ptr<SymmetricKey> kp(new SymmetricKey(r.bytes(32), r.bytes(16)));
	for (size_t i = 0; i < 8; ++i)
	{
		expect(!init ? !c->IsInitialized() : c->IsEncryption() == enc, k + ":says", "initialised %d encrypting %d; %s", c->IsInitialized(), c->IsEncryption(), ctx.c_str());
		if (done) expect(c->Tag().size() == c->TagSize(), k + ":tag", "a tag of %zu bytes, %zu said; %s", c->Tag().size(), c->TagSize(), ctx.c_str());
		agree(k, *c, r, ctx);
		switch (r.below(5))
		{
			case 0: case 1:
			{
				auto s = r.pick(c->LegalKeySizes()); bool e = r.chance(50); std::string er; kp.reset(new SymmetricKey(r.bytes(s.KeySize()), r.bytes(16)));
				if (!expect(outcome([&] { c->Initialize(e, *kp); }, &er) == Returned, k + ":legal", "a listed key size of %zu is refused: %s; %s", (size_t)s.KeySize(), er.c_str(), ctx.c_str())) return;
				expect(c->IsInitialized(), k + ":says", "not ready after it was given a key; %s", ctx.c_str());
				init = true; enc = e; done = false; ctx += strf(" init%d(%zu)", e, (size_t)s.KeySize()); break;
			}
			case 2: { SymmetricKey bad(r.bytes(r.range(1, 15)), r.bytes(16)); bool was = c->IsInitialized(); expect(outcome([&] { c->Initialize(!enc, bad); }) == Threw && c->IsInitialized() == was, k + ":bad", "a short key was taken; %s", ctx.c_str()); ctx += " bad"; break; }
			case 3:
			{
				bool says = c->IsInitialized(); size_t n = r.below(60); V in = r.bytes(n), out(n + c->TagSize());
				if (!enc && init)
				{
					// something to open: made beside it with the same key, if it is the first message
					if (ctx.size() < 6 || ctx.compare(ctx.size() - 1, 1, ")") != 0) break;
					Ptr<Cipher::Block::Mode::IAeadMode> o(Helper::AeadModeFromName::GetInstance(b, m)); o->Initialize(true, *kp); o->Transform(in, 0, out, 0, n); V back(n);
					if (ready(k, says, [&] { c->Transform(out, 0, back, 0, n); }, ctx)) { if (says) { expect(back == in, k + ":direction", "says it decrypts, but does not; %s", ctx.c_str()); done = true; } }
				}
				else if (ready(k, says, [&] { c->Transform(in, 0, out, 0, n); }, ctx) && says) { V t = c->Tag(); done = true; expect(t.size() == c->TagSize() && std::equal(t.begin(), t.end(), out.begin() + n), k + ":tag", "the tag is not what was appended; %s", ctx.c_str()); }
				ctx += strf(" transform[%zu]", n); break;
			}
			default: steer(k, *c, r, true, ctx);
		}
		seen(k, hash(ctx));
	}
}
static void stream(Rng& r, const std::pair<std::string, StreamCiphers>& e)
{
	Ptr<Cipher::Stream::IStreamCipher> c(Helper::StreamCipherFromName::GetInstance(e.second));
	std::string k = "state:" + e.first, ctx = "new"; bool init = false, enc = false, auth = c->IsAuthenticator();
	for (size_t i = 0; i < 8; ++i)
	{
		expect(c->IsAuthenticator() == auth && (!init ? !c->IsInitialized() : c->IsEncryption() == enc), k + ":says", "authenticator %d initialised %d encrypting %d; %s", c->IsAuthenticator(), c->IsInitialized(), c->IsEncryption(), ctx.c_str());
		agree(k, *c, r, ctx);
		switch (r.below(5))
		{
			case 0: case 1:
			{
				auto s = r.pick(c->LegalKeySizes()); bool x = r.chance(60); std::string er; V iv = r.bytes(s.IVSize()); SymmetricKey kp(r.bytes(s.KeySize()), iv);
				if (!expect(outcome([&] { c->Initialize(x, kp); }, &er) == Returned, k + ":legal", "listed sizes of %zu and %zu are refused: %s; %s", (size_t)s.KeySize(), (size_t)s.IVSize(), er.c_str(), ctx.c_str())) return;
				expect(c->IsInitialized(), k + ":says", "not ready after it was given a key; %s", ctx.c_str());
				init = true; enc = x; ctx += strf(" init%d(%zu)", x, (size_t)s.KeySize()); break;
			}
			case 2:
			{
				auto ks = c->LegalKeySizes(); size_t n = r.range(1, 140), m = r.chance(50) ? ks[0].IVSize() : r.range(1, 40); bool in = false; for (auto s : ks) in |= s.KeySize() == n && s.IVSize() == m;
				bool was = c->IsInitialized(); SymmetricKey kp(r.bytes(n), r.bytes(m)); Outcome o = outcome([&] { c->Initialize(true, kp); });
				expect((o == Returned) == in, k + ":listed", "a key of %zu and nonce of %zu bytes, listed %d, was %s; %s", n, m, in, o == Returned ? "taken" : "refused", ctx.c_str());
				if (o == Returned) { init = true; enc = true; ctx += strf(" init1(%zu)", n); } else { expect(c->IsInitialized() == was, k + ":says", "a refused key changed what it says; %s", ctx.c_str()); ctx += " bad"; } break;
			}
			case 3:
			{
				bool says = c->IsInitialized(); if (!says || (auth && init && !enc)) break;     // a key first is a precondition here
				size_t n = r.range(1, 300), t = says ? c->TagSize() : 64; V in = r.bytes(n), out(n + t);
				expect(auth || !says || t == 0, k + ":tag", "no authenticator, but a tag of %zu bytes; %s", t, ctx.c_str());
				if (ready(k, says, [&] { c->Transform(in, 0, out, 0, n); }, ctx) && says && auth) { V g = c->Tag(); expect(g.size() == t && std::equal(g.begin(), g.end(), out.begin() + n), k + ":tag", "a tag of %zu bytes, %zu said, or not what was appended; %s", g.size(), t, ctx.c_str()); }
				ctx += strf(" transform[%zu]", n); break;
			}
			default: steer(k, *c, r, true, ctx);
		}
		seen(k, hash(ctx));
	}
}
static void digest(Rng& r, const std::pair<std::string, Digests>& e)
{
	bool par = r.chance(40);
	Ptr<Digest::IDigest> c(Helper::DigestFromName::GetInstance(e.second, par));
	std::string k = "state:" + e.first, ctx = strf("parallel %d", par); size_t n = c->DigestSize(), b = c->BlockSize(); std::string name = c->Name();
	for (size_t i = 0; i < 6; ++i)
	{
		expect(c->Enumeral() == e.second && c->DigestSize() == n && c->BlockSize() == b && c->Name() == name, k + ":says", "sizes %zu %zu, name %s; %s", c->DigestSize(), c->BlockSize(), c->Name().c_str(), ctx.c_str());
		if (par) { expect(c->IsParallel(), k + ":says", "made for parallel work, but says not; %s", ctx.c_str()); agree(k, *c, r, ctx); }
		V m = r.bytes(r.below(500)); c->Update(m, 0, m.size());
		switch (r.below(4))
		{
			case 0: { V o(n + 9, 0xEE), p(n + 9, 0x11); c->Finalize(o, 3); c->Update(m, 0, m.size()); c->Reset(); Ptr<Digest::IDigest> d(Helper::DigestFromName::GetInstance(e.second, par)); d->Finalize(p, 3); V q(n + 9, 0x11); c->Finalize(q, 3); expect(o[2] == 0xEE && o[n + 3] == 0xEE && p == q, k + ":size", "wrote outside the size it says, or a reset instance is not new; %s", ctx.c_str()); ctx += " finalize reset"; break; }
			case 1: { V o(n > 1 ? n - 1 : 0); expect(outcome([&] { c->Finalize(o, 0); }) == Threw, k + ":size", "a digest of %zu bytes was put into %zu; %s", n, o.size(), ctx.c_str()); c->Reset(); ctx += " short"; break; }
			case 2: { V o(n); c->Compute(m, o); ctx += " compute"; break; }
			default: c->Reset(); ctx += " reset";
		}
		seen(k, hash(ctx));
	}
}
static void mac(Rng& r, const std::pair<std::string, Macs>& e)
{
	Ptr<Mac::IMac> c(Helper::MacFromName::GetInstance(e.second));
	std::string k = "state:" + e.first, ctx = "new"; bool fresh = true;
	for (size_t i = 0; i < 10; ++i)
	{
		bool says = c->IsInitialized();
		if (fresh) expect(!says, k + ":says", "a new instance says it is ready");
		size_t t = c->TagSize();
		switch (r.below(6))
		{
			case 0: case 1:
			{
				auto s = r.pick(c->LegalKeySizes()); std::string er; SymmetricKey kp = keyOf(r, s, r.chance(30));
				if (!expect(outcome([&] { c->Initialize(kp); }, &er) == Returned, k + ":legal", "listed sizes of %zu and %zu are refused: %s; %s", (size_t)s.KeySize(), (size_t)s.IVSize(), er.c_str(), ctx.c_str())) return;
				expect(c->IsInitialized() && c->TagSize() == t, k + ":says", "not ready after it was given a key; %s", ctx.c_str());
				fresh = false; ctx += strf(" init(%zu,%zu)", (size_t)s.KeySize(), (size_t)s.IVSize()); break;
			}
			case 2:
			{
				size_t n = c->MinimumKeySize(); if (!expect(n != 0, k + ":minimum", "a smallest key of nothing")) break;
				SymmetricKey kp(r.bytes(r.range(1, n)), r.bytes(32)); size_t got = kp.KeySizes().KeySize(); if (got == n) break;
				expect(outcome([&] { c->Initialize(kp); }) == Threw && c->IsInitialized() == says, k + ":minimum", "a key of %zu bytes, with a smallest of %zu, was taken, or changed what it says; %s", got, n, ctx.c_str());
				ctx += strf(" bad(%zu)", got); break;
			}
			case 3: { V m = r.bytes(r.below(100)); ready(k + ":Update", says, [&] { c->Update(m, 0, m.size()); }, ctx); ctx += " update"; break; }
			case 4:
			{
				std::string er; if (!says) c->LegalKeySizes();
				bool sec = r.chance(50); V o(t, 0); SecureVector<uint8_t> so(t); size_t n = 0;
				if (ready(k + ":Finalize", says, [&] { n = sec ? c->Finalize(so, 0) : c->Finalize(o, 0); }, ctx) && says) expect(n == t, k + ":tag", "a code of %zu bytes, %zu said; %s", n, t, ctx.c_str());
				ctx += sec ? " finalize-secure" : " finalize"; break;
			}
			default: outcome([&] { c->Reset(); }); ctx += " reset";
		}
		seen(k, hash(ctx));
	}
}
static void kdf(Rng& r, const std::pair<std::string, Kdfs>& e)
{
	Ptr<Kdf::IKdf> c;
	if (e.second == Kdfs::SCBKDF128 || e.second == Kdfs::SCBKDF256 || e.second == Kdfs::SCBKDF512) c.reset(new Kdf::SCBKDF(e.second == Kdfs::SCBKDF128 ? ShakeModes::SHAKE128 : e.second == Kdfs::SCBKDF256 ? ShakeModes::SHAKE256 : ShakeModes::SHAKE512, 2, 0));   // the cost a factory sets is heavy by design
	else try { c.reset(Helper::KdfFromName::GetInstance(e.second)); } catch (CEX::Exception::CryptoException&) { return; }
	std::string k = "state:" + e.first, ctx = "new"; bool fresh = true;
	for (size_t i = 0; i < 8; ++i)
	{
		bool says = c->IsInitialized();
		if (fresh) expect(!says, k + ":says", "a new instance says it is ready");
		switch (r.below(5))
		{
			case 0: case 1:
			{
				auto s = r.pick(c->LegalKeySizes()); std::string er; V kk = r.bytes(s.KeySize()), sa = r.bytes(std::max<size_t>(c->MinimumSaltSize(), s.IVSize())); SymmetricKey kp = r.chance(50) ? SymmetricKey(kk) : SymmetricKey(kk, sa);
				if (!expect(outcome([&] { c->Initialize(kp); }, &er) == Returned, k + ":legal", "a listed key size of %zu with a salt of %zu is refused: %s; %s", (size_t)s.KeySize(), sa.size(), er.c_str(), ctx.c_str())) return;
				expect(c->IsInitialized(), k + ":says", "not ready after it was given a key; %s", ctx.c_str());
				fresh = false; ctx += strf(" init(%zu)", (size_t)s.KeySize()); break;
			}
			case 2:
			{
				size_t n = c->MinimumKeySize(); if (n < 2) break;
				SymmetricKey kp(r.bytes(r.range(1, n - 1))); size_t got = kp.KeySizes().KeySize();
				expect(outcome([&] { c->Initialize(kp); }) == Threw && c->IsInitialized() == says, k + ":minimum", "a key of %zu bytes, with a smallest of %zu, was taken, or changed what it says; %s", got, n, ctx.c_str());
				ctx += strf(" bad(%zu)", got); break;
			}
			case 3: { V o(r.range(1, 100)); SecureVector<uint8_t> so(o.size()); bool sec = r.chance(50); ready(k, says, [&] { sec ? c->Generate(so) : c->Generate(o); }, ctx); ctx += " generate"; break; }
			default: outcome([&] { c->Reset(); }); ctx += " reset"; expect(!c->IsInitialized() || says, k + ":says", "a reset made it ready; %s", ctx.c_str());
		}
		seen(k, hash(ctx));
	}
}
static void drbg(Rng& r)
{
	auto e = r.pick(std::vector<Drbgs>{ Drbgs::BCG, Drbgs::CSG, Drbgs::HCG });
	auto p = r.chance(50) ? Providers::None : Providers::CSP;
	Digests dg = e == Drbgs::CSG ? r.pick(std::vector<Digests>{ Digests::SHAKE256, Digests::SHAKE512 }) : r.pick(std::vector<Digests>{ Digests::SHA2256, Digests::SHA2512 });
	Ptr<Drbg::IDrbg> c(Helper::DrbgFromName::GetInstance(e, dg, p));
	std::string k = "state:" + DrbgConvert::ToName(e), ctx = strf("%s provider %d", DigestConvert::ToName(dg).c_str(), p != Providers::None); bool fresh = true; size_t strength = 0;
	for (size_t i = 0; i < 8; ++i)
	{
		bool says = c->IsInitialized();
		if (fresh) expect(!says, k + ":says", "a new instance says it is ready");
		switch (r.below(4))
		{
			case 0: case 1:
			{
				auto s = r.pick(c->LegalKeySizes()); std::string er; SymmetricKey kp = s.IVSize() && r.chance(80) ? SymmetricKey(r.bytes(s.KeySize()), r.bytes(s.IVSize())) : SymmetricKey(r.bytes(s.KeySize()), s.IVSize() ? r.bytes(s.IVSize()) : V());
				if (!expect(outcome([&] { c->Initialize(kp); }, &er) == Returned, k + ":legal", "listed sizes of %zu and %zu are refused: %s; %s", (size_t)s.KeySize(), (size_t)s.IVSize(), er.c_str(), ctx.c_str())) return;
				expect(c->IsInitialized(), k + ":says", "not ready after it was given a key; %s", ctx.c_str());
				size_t st = c->SecurityStrength(); expect(st != 0, k + ":strength", "a strength of nothing; %s", ctx.c_str()); if (e != Drbgs::BCG) { expect(!strength || st == strength, k + ":strength", "%zu, before %zu; %s", st, strength, ctx.c_str()); strength = st; }
				fresh = false; ctx += strf(" init(%zu,%zu)", (size_t)s.KeySize(), (size_t)s.IVSize()); break;
			}
			case 2: { V o(r.range(1, 300)); SecureVector<uint8_t> so(o.size()); bool sec = r.chance(50); ready(k, says, [&] { sec ? c->Generate(so) : c->Generate(o); }, ctx); ctx += " generate"; break; }
			default:
			{
				size_t n = c->MaxRequestSize(); V o; if (n > (1u << 22)) break;
				o.resize(n + 1); expect(outcome([&] { c->Generate(o); }) == Threw && c->IsInitialized() == says, k + ":request", "a request above the largest of %zu was served, or changed what it says; %s", n, ctx.c_str());
				o.resize(n); ready(k, says, [&] { c->Generate(o); }, ctx + strf(" largest request %zu", n)); ctx += " largest"; count("largest requests");
			}
		}
		seen(k, hash(ctx));
	}
}
template<class X> static void sizes(const std::string& k, X& x, Asymmetric::AsymmetricKeyPair& kp, const std::string& ctx)
{
	size_t a = kp.PublicKey()->Polynomial().size(), b = kp.PrivateKey()->Polynomial().size();
	expect(x.PublicKeySize() == a && x.PrivateKeySize() == b, k + ":key-sizes", "says %zu and %zu, makes %zu and %zu; %s", x.PublicKeySize(), x.PrivateKeySize(), a, b, ctx.c_str());
}
static void cipher(Rng& r, const std::string& name, AsymmetricCiphers a, AsymmetricParameters p)
{
	Ptr<Asymmetric::Encrypt::IAsymmetricCipher> x(Helper::AsymmetricCipherFromName::GetInstance(a, p));
	std::string k = "state:" + name, ctx = "new"; bool init = false, enc = false;
	expect(!x->IsInitialized(), k + ":says", "a new instance says it is ready");
	Ptr<Asymmetric::AsymmetricKeyPair> kp(x->Generate()); sizes(k, *x, *kp, ctx);
	V ct; 
	for (size_t i = 0; i < 5; ++i)
	{
		bool e = i == 0 || r.chance(50); x->Initialize(e ? kp->PublicKey() : kp->PrivateKey()); init = true; enc = e; ctx += e ? " public" : " private";
		expect(x->IsInitialized() == init && x->IsEncryption() == enc, k + ":says", "initialised %d encrypting %d; %s", x->IsInitialized(), x->IsEncryption(), ctx.c_str());
		if (e)
		{
			V c, s(x->SharedSecretSize() ? x->SharedSecretSize() : 32); ready(k, true, [&] { x->Encapsulate(c, s); }, ctx); ct = c;
			expect(c.size() == x->CipherTextSize(), k + ":cipher-text", "says %zu bytes, makes %zu; %s", x->CipherTextSize(), c.size(), ctx.c_str());
		}
		else { V s(32); bool ok = false; ready(k, true, [&] { ok = x->Decapsulate(ct, s); }, ctx); expect(ok, k + ":works", "does not open what it sealed; %s", ctx.c_str()); }
		seen(k, hash(ctx));
	}
}
static void exchange(Rng& r, const std::string& name, ECDHParameters p)
{
	typedef Asymmetric::Encrypt::ECDH::ECDH E;
	E x(p); std::string k = "state:" + name, ctx = "pair"; (void)r;
	Ptr<Asymmetric::AsymmetricKeyPair> a(x.Generate()), b(x.Generate()); sizes(k, x, *a, ctx); sizes(k, x, *b, ctx);
	for (int i = 0; i < 3; ++i)
	{
		V s(x.SharedSecretSize()), t(x.SharedSecretSize());
		ready(k, true, [&] { x.KeyExchange(b->PublicKey(), a->PrivateKey(), s); }, ctx); ready(k, true, [&] { x.KeyExchange(a->PublicKey(), b->PrivateKey(), t); }, ctx);
		expect(s == t && s.size() == x.SharedSecretSize() && s.size() != 0, k + ":secret", "says %zu bytes, gives %zu and %zu", x.SharedSecretSize(), s.size(), t.size());
	}
	seen(k, 1);
}
static void signer(Rng& r, const std::string& name, AsymmetricSigners a, AsymmetricParameters p)
{
	Ptr<Asymmetric::Sign::IAsymmetricSigner> x(Helper::AsymmetricSignerFromName::GetInstance(a, p));
	std::string k = "state:" + name, ctx = "new";
	expect(!x->IsInitialized(), k + ":says", "a new instance says it is ready");
	V m = r.bytes(33), s, o;
	ready(k, false, [&] { V q; x->Sign(m, q); }, ctx); ready(k, false, [&] { V q; x->Verify(m, q); }, ctx);
	Ptr<Asymmetric::AsymmetricKeyPair> kp(x->Generate()); sizes(k, *x, *kp, ctx);
	for (size_t i = 0; i < 4; ++i)
	{
		bool e = i == 0 || (i > 1 && r.chance(50)); x->Initialize(e ? kp->PrivateKey() : kp->PublicKey()); ctx += e ? " private" : " public";
		expect(x->IsInitialized() && x->IsSigner() == e, k + ":says", "initialised %d signing %d; %s", x->IsInitialized(), x->IsSigner(), ctx.c_str());
		if (e)
		{
			size_t n = 0; s.clear(); ready(k, true, [&] { n = x->Sign(m, s); }, ctx);
			expect(s.size() == x->SignatureSize() + m.size() || s.size() == x->SignatureSize(), k + ":signature", "says %zu bytes, makes %zu for a message of %zu; %s", x->SignatureSize(), s.size(), m.size(), ctx.c_str());
			V q; expect(outcome([&] { x->Verify(s, q); }) == Threw, k + ":direction", "verifies with the private key; %s", ctx.c_str()); (void)n;
		}
		else { bool ok = false; o.clear(); ready(k, true, [&] { ok = x->Verify(s, o); }, ctx); expect(ok, k + ":works", "does not verify; %s", ctx.c_str()); V q; expect(outcome([&] { x->Sign(m, q); }) == Threw, k + ":direction", "signs with the public key; %s", ctx.c_str()); }
		seen(k, hash(ctx));
	}
}

#define IDS(E, ...) tag<E>(#__VA_ARGS__, { __VA_ARGS__ })
template<class E> static std::vector<std::pair<std::string, E>> tag(const char* text, std::vector<E> v)
{
	std::vector<std::pair<std::string, E>> o; std::string s = text; size_t p = 0;
	for (auto e : v) { size_t q = s.find(',', p); std::string t = s.substr(p, q == std::string::npos ? q : q - p); while (!t.empty() && t[0] == ' ') t.erase(0, 1); o.push_back({ t.substr(t.find("::") == std::string::npos ? 0 : t.find("::") + 2), e }); p = q + 1; }
	return o;
}
template<class E> const std::vector<std::pair<std::string, E>>& ids();
#define TABLE(E, C, ...) template<> const std::vector<std::pair<std::string, E>>& ids<E>() { static const auto T = IDS(E, __VA_ARGS__); return T; }
NAMED(TABLE)

void cases()
{
	if (part("symmetric"))
	{
		for (auto& b : ids<BlockCiphers>()) for (size_t i = 0; i < reps(4, 100); ++i) vh::run(strf("block-%s#%zu", b.first.c_str(), i), [&](Rng& r) { block(r, b); });
		for (auto& b : ids<BlockCiphers>()) for (size_t i = 0; i < reps(6, 150); ++i) vh::run(strf("mode-%s#%zu", b.first.c_str(), i), [&](Rng& r) { mode(r, b); });
		for (size_t i = 0; i < reps(40, 1000); ++i) vh::run(strf("aead#%zu", i), aead);
		for (auto& b : ids<StreamCiphers>()) for (size_t i = 0; i < reps(2, 50); ++i) vh::run(strf("stream-%s#%zu", b.first.c_str(), i), [&](Rng& r) { stream(r, b); });
	}
	if (part("generators"))
	{
		for (auto& b : ids<Digests>()) if (b.first.compare(0, 5, "SHAKE") != 0) for (size_t i = 0; i < reps(5, 100); ++i) vh::run(strf("digest-%s#%zu", b.first.c_str(), i), [&](Rng& r) { digest(r, b); });
		for (auto& b : ids<Macs>()) for (size_t i = 0; i < reps(5, 100); ++i) vh::run(strf("mac-%s#%zu", b.first.c_str(), i), [&](Rng& r) { mac(r, b); });
		for (auto& b : ids<Kdfs>()) for (size_t i = 0; i < reps(5, 100); ++i) vh::run(strf("kdf-%s#%zu", b.first.c_str(), i), [&](Rng& r) { kdf(r, b); });
		for (size_t i = 0; i < reps(30, 600); ++i) vh::run(strf("drbg#%zu", i), drbg);
	}
	if (part("asymmetric"))
		for (auto& p : ids<AsymmetricParameters>())
		{
			auto is = [&](const char* s) { return p.first.compare(0, strlen(s), s) == 0; };
			bool slow = is("MPKC") || is("SPX");
			if (slow && !cfg.thorough && p.first != "MPKCS3N4608T96" && p.first != "SPXPS1S128SHAKE") continue;
			if (is("XMSS") && (p.first.find("H20D4") == std::string::npos || (!cfg.thorough && p.first.find("512") != std::string::npos))) continue;     // the trees small enough to grow here
			for (size_t i = 0; i < (slow ? 1 : reps(2, 20)); ++i) vh::run(strf("asym-%s#%zu", p.first.c_str(), i), [&](Rng& r)
			{
				if (is("KYBER")) cipher(r, p.first, AsymmetricCiphers::Kyber, p.second);
				else if (is("MPKC")) cipher(r, p.first, AsymmetricCiphers::McEliece, p.second);
				else if (is("DLTM")) signer(r, p.first, AsymmetricSigners::Dilithium, p.second);
				else if (is("ECDSA")) signer(r, p.first, AsymmetricSigners::ECDSA, p.second);
				else if (is("ECDH")) exchange(r, p.first, p.second == AsymmetricParameters::ECDHS2P25519S ? ECDHParameters::ECDHS2P25519S : ECDHParameters::ECDHS1P25519K);
				else if (is("XMSS")) signer(r, p.first, AsymmetricSigners::XMSS, p.second);
				else if (is("SPX")) signer(r, p.first, AsymmetricSigners::SphincsPlus, p.second);
			});
		}
}
