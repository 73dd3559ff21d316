// What a refused call leaves behind: every history is run twice, once with calls in between that have to be
// refused, and both have to give the same.
#include "jobs.h"
#include "life.h"
#include "BCG.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#include "ECB.h"
#include "CFB.h"
#include "OFB.h"
#include "ICM.h"
#include "SHX.h"
#include "KMAC.h"
#include "KPA.h"
#include "SHAKE.h"
#include "SCBKDF.h"
#include "XMSS.h"
#include "RCS.h"
#include "RWS.h"
#include "CSX512.h"
#include "ChaChaP20.h"
#include "TSX256.h"
#include "TSX512.h"
#include "TSX1024.h"
#include "AsymmetricSecureKey.h"
#include "SymmetricSecureKey.h"
#include "CBC.h"
#include "CSG.h"
#include "CTR.h"
#include "CMAC.h"
#include "DigestStream.h"
#include "FileStream.h"
#include "GCM.h"
#include "GMAC.h"
#include "HBA.h"
#include "HCG.h"
#include "HKDF.h"
#include "HMAC.h"
#include "KDF2.h"
#include "MacStream.h"
#include "PBKDF2.h"
#include "ACP.h"
#include "RHX.h"
#include "SHA2512.h"
#include "CSP.h"
#include <unistd.h>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using CEX::Cipher::SymmetricKey;
typedef std::vector<uint8_t> V;

// A history: the intrusions have randomness of their own, so that the rest is the same with and without them.
struct Hist
{
	Rng r, x; bool intrude; std::string what; std::vector<uint64_t> log; size_t intruded = 0; std::string last;
	Hist(uint64_t s, bool i, const std::string& w) : r(s), x(mix(s) + 1), intrude(i), what(w) {}
	void note(uint64_t v) { log.push_back(v); }
	template<class T> void note(const std::vector<T>& v) { note(hash(v.data(), v.size() * sizeof(T))); }
	void note(const SecureVector<uint8_t>& v) { note(hash(v.data(), v.size())); }
	// f has to be refused with an exception of the library's own
	void bad(const std::string& kind, const std::function<void()>& f)
	{
		if (!intrude || !x.chance(60)) return;
		std::string e; Outcome o = outcome(f, &e);
		expect(o == Threw, "accepted:" + what + ":" + kind, o == Returned ? "the call was not refused" : "refused with a foreign exception: %s", e.c_str());
		++intruded; last = kind; count("refused calls");
	}
	// the same, with an array that has to stay as it is
	template<class A> void bad(const std::string& kind, A& keep, const std::function<void()>& f)
	{
		if (!intrude) return;
		A was(keep); bad(kind, f);
		expect(was == keep, "written:" + what + ":" + kind, "the refused call changed the output array");
	}
};
typedef std::function<void(Hist&)> Story;
static std::vector<std::pair<std::string, Story>> stories;

static void twin(Rng& r, const std::string& name, const Story& s)
{
	uint64_t seed = r.next();
	Hist a(seed, false, name), b(seed, true, name);
	s(a); s(b);
	expect(a.log == b.log, "changed:" + b.what, "%zu calls were refused (last: %s), the results differ from those without them", b.intruded, b.last.c_str());
	seen(b.what + b.last, mix(seed) ^ b.intruded);
}

static V other(Rng& r, const std::vector<size_t>& legal, size_t lo = 0, size_t hi = 160)
{
	for (;;) { size_t n = r.range(lo, hi); if (std::find(legal.begin(), legal.end(), n) == legal.end()) return r.bytes(n); }
}
template<class L> static std::vector<size_t> keySizes(const L& l) { std::vector<size_t> o; for (auto& k : l) o.push_back(const_cast<Cipher::SymmetricKeySize&>(k).KeySize()); return o; }
static SymmetricKey key(const V& k, const V& n, const V& i = V()) { return SymmetricKey(k, n, i); }
// a key whose key part has an illegal size; a key without a key part still has a nonce
static void badKey(Hist& h, const std::vector<size_t>& legal, size_t iv, const std::function<void(SymmetricKey&)>& init, bool nonceOnly = false)
{
	h.bad("key-size", [&] { V k = other(h.x, legal, iv && !nonceOnly && h.x.chance(30) ? 0 : 1, h.x.chance(20) ? 2 : 160), n = h.x.bytes(iv); SymmetricKey p = iv ? SymmetricKey(k, n) : SymmetricKey(k); init(p); });
}

// degrees that are never legal
static void badDegree(Hist& h, const std::function<void(size_t)>& f) { h.bad("degree", [&] { f(h.x.pick(std::vector<size_t>{ 0, 1, 3, 5, 7, 1000, 1001 })); }); }

static void build()
{
	auto add = [](const std::string& n, Story s) { stories.push_back({ n, s }); };
	const std::vector<BlockCiphers> bc = { BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXH256, BlockCiphers::RHXS512, BlockCiphers::SHXH512, BlockCiphers::SHXS256 };

	add("mode", [=](Hist& h) {
		Rng& r = h.r; auto m = r.pick(std::vector<CipherModes>{ CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM });
		std::unique_ptr<Cipher::Block::Mode::ICipherMode> c(Helper::CipherModeFromName::GetInstance(r.pick(bc), m));
		h.what = "mode:" + c->Name();
		auto legal = keySizes(c->LegalKeySizes()); size_t iv = m == CipherModes::ECB ? 0 : 16;
		if (m != CipherModes::OFB) c->ParallelProfile().IsParallel() = false;
		bool enc = r.chance(50); SymmetricKey k = iv ? SymmetricKey(r.bytes(r.pick(legal)), r.bytes(iv)) : SymmetricKey(r.bytes(r.pick(legal)));
		auto intr = [&] {
			badKey(h, legal, iv, [&](SymmetricKey& p) { c->Initialize(h.x.chance(50), p); });
			if (m != CipherModes::ECB) h.bad("nonce-size", [&] { V n = m == CipherModes::CFB ? V() : other(h.x, { 16 }, 0, 64); V kk = h.x.bytes(h.x.pick(legal)); SymmetricKey p(kk, n); c->Initialize(h.x.chance(50), p); });
			if (m != CipherModes::OFB) badDegree(h, [&](size_t d) { c->ParallelMaxDegree(d); });
		};
		intr(); h.note(c->IsInitialized()); c->Initialize(enc, k);
		for (int i = r.range(1, 4); i > 0; --i)
		{
			intr();
			V in = r.bytes(16 * r.range(1, 30)), out(in.size()); c->Transform(in, 0, out, 0, in.size()); h.note(out);
			h.note(c->IsInitialized() + 2 * c->IsEncryption());
			if (r.chance(30)) { SymmetricKey q = iv ? SymmetricKey(r.bytes(r.pick(legal)), r.bytes(iv)) : SymmetricKey(r.bytes(r.pick(legal))); c->Initialize(enc = r.chance(50), q); }
		}
	});
	add("block", [=](Hist& h) {
		Rng& r = h.r; std::unique_ptr<Cipher::Block::IBlockCipher> c(Helper::BlockCipherFromName::GetInstance(r.pick(bc)));
		h.what = "block:" + c->Name(); auto legal = keySizes(c->LegalKeySizes());
		auto intr = [&] { badKey(h, legal, 0, [&](SymmetricKey& p) { c->Initialize(h.x.chance(50), p); }); };
		intr();
		for (int i = r.range(1, 3); i > 0; --i)
		{
			SymmetricKey k(r.bytes(r.pick(legal))); c->Initialize(r.chance(50), k); intr();
			V in = r.bytes(16), out(16); c->Transform(in, 0, out, 0); h.note(out); h.note(c->IsInitialized() + 2 * c->IsEncryption()); intr();
			c->Transform(in, 0, out, 0); h.note(out);
		}
	});
	add("aead", [=](Hist& h) {
		Rng& r = h.r; auto m = r.pick(std::vector<AeadModes>{ AeadModes::GCM, AeadModes::HBAH256, AeadModes::HBAH512, AeadModes::HBAS256, AeadModes::HBAS512 });
		auto b = r.pick(std::vector<BlockCiphers>{ BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXS256 });
		auto make = [&] { return std::unique_ptr<Cipher::Block::Mode::IAeadMode>(Helper::AeadModeFromName::GetInstance(b, m)); };
		auto c = make(), e = make();
		h.what = "aead:" + c->Name(); auto legal = keySizes(c->LegalKeySizes());
		c->ParallelProfile().IsParallel() = false;
		auto intr = [&](bool ready) {
			badKey(h, legal, 16, [&](SymmetricKey& p) { c->Initialize(h.x.chance(50), p); }, m == AeadModes::GCM);
			h.bad("nonce-size", [&] { V n = m == AeadModes::GCM ? h.x.bytes(h.x.below(8)) : other(h.x, { 16 }, 0, 64); V kk = h.x.bytes(h.x.pick(legal)); SymmetricKey p(kk, n); c->Initialize(h.x.chance(50), p); });
			badDegree(h, [&](size_t d) { c->ParallelMaxDegree(d); });
			if (!ready)
			{
				V in = h.x.bytes(32), out(100); h.bad("transform-uninitialised", out, [&] { c->Transform(in, 0, out, 0, 16); });
				h.bad("aad-uninitialised", [&] { c->SetAssociatedData(in, 0, 16); });
			}
		};
		intr(false);
		for (int i = r.range(1, 3); i > 0; --i)
		{
			V k = r.bytes(r.pick(legal)), n = r.bytes(16); SymmetricKey kp(k, n);
			V aad = r.bytes(r.range(1, 40)), in = r.bytes(r.range(1, 300)), ct(in.size() + c->TagSize() + 40), sealed(ct);
			SymmetricKey kq(k, n); e->Initialize(true, kq); e->SetAssociatedData(aad, 0, aad.size()); e->Transform(in, 0, sealed, 0, in.size());
			bool enc = r.chance(50); c->Initialize(enc, kp); intr(true);
			h.bad("aad-range", [&] { c->SetAssociatedData(aad, 1, aad.size()); });
			c->SetAssociatedData(aad, 0, aad.size()); intr(true);
			if (m == AeadModes::GCM) h.bad("aad-twice", [&] { c->SetAssociatedData(aad, 0, aad.size()); });
			V small(in.size() + c->TagSize() - 1 - h.x.below(c->TagSize()));
			if (enc)
			{
				h.bad("no-room-for-tag", small, [&] { c->Transform(in, 0, small, 0, in.size()); });
				h.bad("no-room-for-tag", ct, [&] { c->Transform(in, 0, ct, 41 + h.x.below(c->TagSize() - 1), in.size()); });
				c->Transform(in, 0, ct, 0, in.size()); h.note(ct);
			}
			else
			{
				V cut(sealed.begin(), sealed.begin() + small.size()), out(in.size());
				h.bad("no-tag", out, [&] { c->Transform(cut, 0, out, 0, in.size()); });
				c->Transform(sealed, 0, out, 0, in.size()); h.note(out); h.note((uint64_t)(out == in));
			}
			intr(true); h.note(c->IsInitialized() + 2 * c->IsEncryption()); h.note(c->Tag());
		}
	});
	add("stream", [](Hist& h) {
		Rng& r = h.r;
		auto ee = r.pick(std::vector<StreamCiphers>{ StreamCiphers::ChaChaP20, StreamCiphers::CSXR20K256, StreamCiphers::CSX512, StreamCiphers::CSXR80K512, StreamCiphers::RCS, StreamCiphers::RCSK256, StreamCiphers::RWS, StreamCiphers::RWSK512, StreamCiphers::TSX256, StreamCiphers::TSXR72K256, StreamCiphers::TSX512, StreamCiphers::TSXR96K512, StreamCiphers::TSX1024, StreamCiphers::TSXR120K512 });
		auto make = [&] { return std::unique_ptr<Cipher::Stream::IStreamCipher>(Helper::StreamCipherFromName::GetInstance(ee)); };
		auto c = make(), e = make(); bool auth = c->IsAuthenticator();
		h.what = "stream:" + c->Name(); auto legal = keySizes(c->LegalKeySizes()); c->ParallelProfile().IsParallel() = false; e->ParallelProfile().IsParallel() = false;
		auto all = c->LegalKeySizes(); size_t iv = all[0].IVSize();
		auto intr = [&](bool ready) {
			badKey(h, legal, iv, [&](SymmetricKey& p) { c->Initialize(h.x.chance(50), p); });
			h.bad("nonce-size", [&] { V n = other(h.x, { iv }, 0, 64), kk = h.x.bytes(h.x.pick(legal)); SymmetricKey p(kk, n); c->Initialize(h.x.chance(50), p); });
			if (!auth || !ready) h.bad("aad-not-ready", [&] { V a = h.x.bytes(20); c->SetAssociatedData(a, 0, 20); });
			badDegree(h, [&](size_t d) { c->ParallelMaxDegree(d); });
		};
		intr(false);
		for (int i = r.range(1, 3); i > 0; --i)
		{
			auto ks = r.pick(all); V k = r.bytes(ks.KeySize()), n = r.bytes(iv); SymmetricKey kp(k, n), kq(k, n); bool enc = r.chance(50);
			e->Initialize(true, kq); c->Initialize(enc, kp); size_t tag = auth ? c->TagSize() : 0;
			intr(true);
			V aad = r.bytes(r.range(1, 40)); bool withAad = auth && r.chance(50);
			if (withAad) { e->SetAssociatedData(aad, 0, aad.size()); c->SetAssociatedData(aad, 0, aad.size()); }
			for (int j = auth ? 1 : r.range(1, 4); j > 0; --j)
			{
				V in = r.bytes(r.range(1, 500)), sealed(in.size() + tag); e->Transform(in, 0, sealed, 0, in.size());
				intr(true);
				if (enc)
				{
					V ct(in.size() + tag), small(in.size() + (tag ? tag - 1 - h.x.below(tag) : 0));
					if (auth) h.bad("no-room-for-tag", small, [&] { c->Transform(in, 0, small, 0, in.size()); });
					c->Transform(in, 0, ct, 0, in.size()); h.note(ct);
				}
				else
				{
					V out(in.size()), cut(sealed.begin(), sealed.begin() + in.size() + (tag ? tag - 1 - h.x.below(tag) : 0));
					if (auth) h.bad("no-tag", out, [&] { c->Transform(cut, 0, out, 0, in.size()); });
					c->Transform(sealed, 0, out, 0, in.size()); h.note(out); h.note((uint64_t)(out == in));
				}
			}
			intr(true); h.note(c->IsInitialized() + 2 * c->IsEncryption()); if (auth) h.note(c->Tag());
		}
	});
	add("digest", [](Hist& h) {
		Rng& r = h.r; auto e = r.pick(std::vector<Digests>{ Digests::Blake256, Digests::Blake512, Digests::SHA2256, Digests::SHA2512, Digests::SHA3256, Digests::SHA3512, Digests::Skein256, Digests::Skein512, Digests::Skein1024 });
		std::unique_ptr<Digest::IDigest> d(Helper::DigestFromName::GetInstance(e, r.chance(30))); h.what = "digest:" + d->Name();
		for (int i = r.range(1, 3); i > 0; --i)
		{
			for (int j = r.below(4); j > 0; --j)
			{
				V m = r.bytes(r.below(500)); d->Update(m, 0, m.size());
				V small(h.x.below(d->DigestSize())); h.bad("finalize-small", small, [&] { d->Finalize(small, 0); });
				V o(d->DigestSize() + 8, 9); h.bad("finalize-offset", o, [&] { d->Finalize(o, 9 + h.x.below(60)); });
				h.bad("compute-small", small, [&] { d->Compute(m, small); });
				badDegree(h, [&](size_t n) { d->ParallelMaxDegree(n); });
			}
			V o(d->DigestSize()); d->Finalize(o, 0); h.note(o);
		}
	});
	add("mac", [](Hist& h) {
		Rng& r = h.r; auto e = r.pick(std::vector<Macs>{ Macs::CMAC, Macs::CMACRHXH512, Macs::CMACRHXS256, Macs::GMAC, Macs::GMACRHXH256, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KPA128, Macs::KPA256, Macs::KPA512, Macs::KMAC256, Macs::KMAC512, Macs::Poly1305 });
		std::unique_ptr<Mac::IMac> c(Helper::MacFromName::GetInstance(e)); h.what = "mac:" + c->Name();
		bool fixed = c->Name().find("HMAC") == std::string::npos && c->Name().find("K") != 0;     // ciphers: exactly these keys
		auto legal = keySizes(c->LegalKeySizes()); size_t min = c->MinimumKeySize();
		auto ivOf = [&](Cipher::SymmetricKeySize k) { return k.IVSize(); };
		auto intr = [&](bool ready) {
			h.bad("short-key", [&] { V k = h.x.bytes(1 + h.x.below(min - 1)), n = h.x.bytes(16); SymmetricKey p(k, n); c->Initialize(p); });
			if (fixed && c->Name() != "Poly1305") h.bad("key-size", [&] { V k = other(h.x, { 16, 24, 32, 64, 96, 128 }, min + 1, 200), n = h.x.bytes(16); SymmetricKey p(k, n); c->Initialize(p); });
			if (c->Name().find("GMAC") != std::string::npos) h.bad("nonce-size", [&] { V k = h.x.bytes(h.x.pick(legal)), n = h.x.bytes(h.x.below(c->MinimumSaltSize())); SymmetricKey p(k, n); c->Initialize(p); });
			V in = h.x.bytes(20), out(c->TagSize()), small(h.x.below(c->TagSize()));
			if (!ready)
			{
				h.bad("update-uninitialised", [&] { c->Update(in, 0, 20); });
				h.bad("finalize-uninitialised", out, [&] { c->Finalize(out, 0); });
				h.bad("compute-uninitialised", out, [&] { c->Compute(in, out); });
				return;
			}
			h.bad("update-range", [&] { c->Update(in, 1 + h.x.below(40), 20); });
			if (c->Name().find("K") != 0) h.bad("finalize-small", small, [&] { c->Finalize(small, 0); });
			if (c->Name().find("K") != 0) h.bad("finalize-offset", out, [&] { c->Finalize(out, 1 + h.x.below(40)); });
			h.bad("finalize-beyond", out, [&] { c->Finalize(out, out.size() + 1 + h.x.below(40)); });
			h.bad("compute-small", small, [&] { c->Compute(in, small); });
		};
		intr(false); h.note(c->IsInitialized());
		for (int i = r.range(1, 3); i > 0; --i)
		{
			auto all = c->LegalKeySizes(); auto ks = r.pick(all); V k = r.bytes(ks.KeySize()); SymmetricKey kp = ivOf(ks) ? SymmetricKey(k, r.bytes(ivOf(ks))) : SymmetricKey(k); c->Initialize(kp);
			for (int j = r.below(4); j > 0; --j) { V m = r.bytes(r.below(300)); c->Update(m, 0, m.size()); intr(true); }
			intr(true); V o(c->TagSize()); c->Finalize(o, 0); h.note(o); h.note(c->IsInitialized()); h.note(c->TagSize());
			if (c->Name().find("GMAC") != std::string::npos) intr(false);
		}
	});
	add("kdf", [](Hist& h) {
		Rng& r = h.r; auto e = r.pick(std::vector<Kdfs>{ Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::KDF2256, Kdfs::KDF2512, Kdfs::PBKDF2256, Kdfs::PBKDF2512, Kdfs::SHAKE128, Kdfs::SHAKE256, Kdfs::SHAKE512 });
		std::unique_ptr<Kdf::IKdf> c(Helper::KdfFromName::GetInstance(e)); h.what = "kdf:" + c->Name();
		auto intr = [&](bool ready) {
			if (c->MinimumKeySize() > 1) h.bad("short-key", [&] { V k = h.x.bytes(1 + h.x.below(c->MinimumKeySize() - 1)); SymmetricKey p(k); c->Initialize(p); });
			if (c->MinimumSaltSize() > 1) h.bad("short-salt", [&] { V k = h.x.bytes(64), s = h.x.bytes(1 + h.x.below(c->MinimumSaltSize() - 1)); SymmetricKey p(k, s); c->Initialize(p); });
			V out(h.x.range(1, 40)); SecureVector<uint8_t> so(out.size());
			if (!ready) { h.bad("generate-uninitialised", out, [&] { c->Generate(out); }); h.bad("generate-uninitialised", so, [&] { c->Generate(so); }); h.bad("generate-uninitialised", out, [&] { c->Generate(out, 0, out.size()); }); return; }
			h.bad("generate-range", out, [&] { c->Generate(out, 1, out.size()); });
			h.bad("generate-range", so, [&] { c->Generate(so, 1 + h.x.below(100), so.size()); });
			h.bad("generate-range", out, [&] { c->Generate(out, 0, out.size() + 1 + h.x.below(50)); });
		};
		intr(false); h.note(c->IsInitialized());
		for (int i = r.range(1, 2); i > 0; --i)
		{
			V k = r.bytes(64), s = r.bytes(32); SymmetricKey kp(k, s); c->Initialize(kp); intr(true);
			for (int j = r.range(1, 3); j > 0; --j) { V o(r.range(1, 300)); if (r.chance(50)) c->Generate(o); else c->Generate(o, 0, o.size()); h.note(o); intr(true); }
			h.note(c->IsInitialized());
		}
	});
	add("drbg", [](Hist& h) {
		Rng& r = h.r; auto e = r.pick(std::vector<Drbgs>{ Drbgs::BCG, Drbgs::CSG, Drbgs::HCG });
		std::unique_ptr<Drbg::IDrbg> g(Helper::DrbgFromName::GetInstance(e, e == Drbgs::CSG ? Digests::SHAKE256 : r.chance(50) ? Digests::SHA2512 : Digests::SHA2256, Providers::None)); h.what = "drbg:" + g->Name();
		auto all = g->LegalKeySizes(); auto legal = keySizes(all); size_t iv = all[0].IVSize();
		auto intr = [&](bool ready) {
			if (e != Drbgs::BCG) h.bad("short-key", [&] { V k = h.x.bytes(h.x.range(1, 15)); SymmetricKey p(k); g->Initialize(p); });
			else badKey(h, legal, iv, [&](SymmetricKey& p) { g->Initialize(p); });
			V out(h.x.range(1, 40)); SecureVector<uint8_t> so(out.size());
			if (!ready) { h.bad("generate-uninitialised", out, [&] { g->Generate(out); }); h.bad("generate-uninitialised", so, [&] { g->Generate(so); }); return; }
			h.bad("generate-range", out, [&] { g->Generate(out, 1, out.size()); });
			h.bad("generate-range", so, [&] { g->Generate(so, 1 + h.x.below(100), so.size()); });
			h.bad("update-size", [&] { V k = e == Drbgs::CSG ? h.x.bytes(h.x.below(16)) : e == Drbgs::HCG ? h.x.bytes(h.x.below(g->SecurityStrength() / 8)) : other(h.x, legal, 0, 200); g->Update(k); });
			if (e != Drbgs::CSG) h.bad("request-size", [&] { V big(g->MaxRequestSize() + 1); g->Generate(big); });
		};
		intr(false); h.note(g->IsInitialized());
		for (int i = r.range(1, 2); i > 0; --i)
		{
			auto ks = r.pick(all); V k = r.bytes(ks.KeySize()); SymmetricKey kp = ks.IVSize() ? SymmetricKey(k, r.bytes(ks.IVSize())) : SymmetricKey(k); g->Initialize(kp); intr(true);
			for (int j = r.range(1, 3); j > 0; --j) { V o(r.range(1, 600)); g->Generate(o); h.note(o); intr(true); if (r.chance(30)) { V u = r.bytes(r.pick(legal)); g->Update(u); intr(true); } }
			h.note(g->IsInitialized()); h.note(g->SecurityStrength());
		}
	});
	add("random", [](Hist& h) {
		Rng& r = h.r; V out(r.range(1, 60)); SecureVector<uint8_t> so(out.size());
		auto go = [&](auto& p) {
			h.what = std::string("random:") + p.Name();
			h.bad("generate-range", out, [&] { p.Generate(out, 1, out.size()); });
			h.bad("generate-range", so, [&] { p.Generate(so, h.x.range(1, 99), so.size()); });
			V o(32), z(32); p.Generate(o); h.note((uint64_t)(o != z));
		};
		switch (r.below(3))
		{
			case 0: { std::unique_ptr<Provider::IProvider> p(Helper::ProviderFromName::GetInstance(r.pick(std::vector<Providers>{ Providers::CSP, Providers::RDP, Providers::ACP }))); go(*p); break; }
			case 1: { std::unique_ptr<Prng::IPrng> p(Helper::PrngFromName::GetInstance(r.pick(std::vector<Prngs>{ Prngs::BCR, Prngs::CSR, Prngs::HCR }), Providers::CSP)); go(*p); break; }
			default: { Prng::SecureRandom p(r.pick(std::vector<Prngs>{ Prngs::BCR, Prngs::CSR, Prngs::HCR }), Providers::CSP); go(p); break; }
		}
	});
	add("memory-stream", [](Hist& h) {
		Rng& r = h.r; V d = r.bytes(r.range(1, 200)); IO::MemoryStream s(d);
		for (int i = r.range(1, 12); i > 0; --i)
		{
			V o(r.range(1, 60), 7);
			if (s.Length() - s.Position() >= o.size()) h.bad("read-range", o, [&] { s.Read(o, 1 + h.x.below(9), o.size()); });
			h.bad("write-range", [&] { V w = h.x.bytes(10); s.Write(w, 1 + h.x.below(20), 10); });
			h.bad("seek-before", [&] { s.Seek(s.Length() + 1 + h.x.below(5), IO::SeekOrigin::End); });
			if (h.intrude && h.x.chance(30)) { uint64_t at = s.Position(); s.Seek((uint64_t)0 - 1 - h.x.below(5), IO::SeekOrigin::Begin); h.bad("write-beyond", [&] { V w = h.x.bytes(10); if (h.x.chance(70)) s.Write(w, 0, 10); else s.WriteByte(1); }); s.Seek(at, IO::SeekOrigin::Begin); }
			switch (r.below(4))
			{
				case 0: h.note(s.Read(o, 0, o.size())); h.note(o); break;
				case 1: s.Write(o, 0, o.size()); break;
				case 2: s.Seek(r.below(s.Length() + 1), IO::SeekOrigin::Begin); break;
				default: if (s.Position() < s.Length()) h.note(s.ReadByte()); else h.bad("read-end", [&] { s.ReadByte(); });
			}
			h.note(s.Position()); h.note(s.Length());
		}
		h.note(s.ToArray());
	});
	add("secure-stream", [](Hist& h) {
		Rng& r = h.r; V d = r.bytes(r.range(1, 200)); IO::SecureStream s(d, r.next());
		for (int i = r.range(1, 8); i > 0; --i)
		{
			V o(r.range(1, 60), 7);
			if (s.Length() - s.Position() >= o.size()) h.bad("read-range", o, [&] { s.Read(o, 1 + h.x.below(9), o.size()); });
			h.bad("seek-before", [&] { s.Seek(s.Length() + 1 + h.x.below(5), IO::SeekOrigin::End); });
			if (h.intrude && h.x.chance(30)) { uint64_t at = s.Position(); s.Seek((uint64_t)0 - 1 - h.x.below(5), IO::SeekOrigin::Begin); h.bad("write-beyond", [&] { V w = h.x.bytes(10); if (h.x.chance(70)) s.Write(w, 0, 10); else s.WriteByte(1); }); s.Seek(at, IO::SeekOrigin::Begin); }
			h.bad("write-range", [&] { V w = h.x.bytes(10); s.Write(w, 1 + h.x.below(20), 10); });
			switch (r.below(4))
			{
				case 0: h.note(s.Read(o, 0, o.size())); h.note(o); break;
				case 1: s.Write(o, 0, o.size()); break;
				case 2: s.Seek(r.below(s.Length() + 1), IO::SeekOrigin::Begin); break;
				default: if (s.Position() < s.Length()) h.note(s.ReadByte()); else h.bad("read-end", [&] { s.ReadByte(); });
			}
			h.note(s.Position()); h.note(s.Length());
		}
		h.note(s.ToArray());
	});
	add("file-stream", [](Hist& h) {
		Rng& r = h.r; char dir[] = "/tmp/vhXXXXXX"; if (!mkdtemp(dir)) return; std::string f = std::string(dir) + "/f";
		{
			IO::FileStream s(f, IO::FileStream::FileAccess::ReadWrite, IO::FileStream::FileModes::Binary);
			V d = r.bytes(r.range(1, 200)); s.Write(d, 0, d.size());
			for (int i = r.range(1, 8); i > 0; --i)
			{
				V o(r.range(1, 60), 7);
				if (s.Length() - s.Position() >= o.size()) h.bad("read-range", o, [&] { s.Read(o, 1 + h.x.below(9), o.size()); });
				h.bad("seek-before", [&] { s.Seek(s.Length() + 1 + h.x.below(5), IO::SeekOrigin::End); });
				h.bad("write-range", [&] { V w = h.x.bytes(10); s.Write(w, 1 + h.x.below(20), 10); });
				switch (r.below(4))
				{
					case 0: h.note(s.Read(o, 0, o.size())); h.note(o); break;
					case 1: s.Write(o, 0, o.size()); break;
					case 2: s.Seek(r.below(s.Length() + 1), IO::SeekOrigin::Begin); break;
					default: if (s.Position() < s.Length()) h.note(s.ReadByte()); else h.bad("read-end", [&] { s.ReadByte(); });
				}
				h.note(s.Position()); h.note(s.Length());
			}
			s.Close();
		}
		std::string all; if (FILE* x = fopen(f.c_str(), "rb")) { int c; while ((c = fgetc(x)) != EOF) all += (char)c; fclose(x); }
		h.note(hash(all)); unlink(f.c_str()); rmdir(dir);
	});
	add("parallel", [](Hist& h) {
		Rng& r = h.r; ParallelOptions p(r.pick(std::vector<size_t>{ 16, 64, 128 }), true, 2048, r.chance(50));
		for (int i = r.range(1, 6); i > 0; --i)
		{
			h.bad("degree", [&] { p.SetMaxDegree(0); });
			h.bad("block-size", [&] { p.SetBlockSize(h.x.below(p.ParallelMinimumSize())); });
			if (r.chance(50)) p.SetMaxDegree(2 * r.range(1, p.ProcessorCount() / 2 ? p.ProcessorCount() / 2 : 1));
			if (r.chance(50)) p.SetBlockSize(p.ParallelMinimumSize() * r.range(1, 20));
			h.note(p.IsParallel()); h.note(p.ParallelBlockSize()); h.note(p.ParallelMaxDegree()); h.note(p.ParallelMinimumSize()); h.note(p.ParallelMaximumSize());
		}
	});
	add("padding", [](Hist& h) {
		Rng& r = h.r; std::unique_ptr<Cipher::Block::Padding::IPadding> p(Helper::PaddingFromName::GetInstance(r.pick(std::vector<PaddingModes>{ PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ESP, PaddingModes::ZeroOne }))); h.what = "padding:" + p->Name();
		V b = r.bytes(16); size_t n = r.range(1, 15);
		h.bad("add-range", b, [&] { p->AddPadding(b, h.x.below(16), 17 + h.x.below(20)); });
		p->AddPadding(b, n, 16); h.bad("length-range", b, [&] { p->GetBlockLength(b, 0, 17 + h.x.below(20)); });
		h.note(p->GetBlockLength(b)); h.note(b);
	});
	add("cipher-stream", [](Hist& h) {
		Rng& r = h.r; auto m = r.pick(std::vector<CipherModes>{ CipherModes::CBC, CipherModes::CTR, CipherModes::ECB, CipherModes::CFB });
		Processing::CipherStream c(BlockCiphers::AES, m, PaddingModes::PKCS7), e(BlockCiphers::AES, m, PaddingModes::PKCS7); h.what = "cipher-stream"; size_t iv = m == CipherModes::ECB ? 0 : 16;
		auto intr = [&](bool ready) {
			badKey(h, { 16, 24, 32 }, iv, [&](SymmetricKey& p) { c.Initialize(h.x.chance(50), p); });
			badDegree(h, [&](size_t n) { c.ParallelMaxDegree(n); });
			V in = h.x.bytes(64), out(200); IO::MemoryStream i(in), o, nothing;
			if (!ready) { h.bad("write-uninitialised", out, [&] { c.Write(in, 0, out, 0); }); h.bad("write-uninitialised", [&] { c.Write(&i, &o); }); return; }
			h.bad("write-offset", out, [&] { c.Write(in, 64 + h.x.below(20), out, 0); });
		};
		intr(false);
		for (int i = r.range(1, 3); i > 0; --i)
		{
			V k = r.bytes(r.pick(std::vector<size_t>{ 16, 24, 32 })), n = r.bytes(16), in = r.bytes(r.range(1, 300)); auto mk = [&] { return iv ? SymmetricKey(k, n) : SymmetricKey(k); };
			SymmetricKey a = mk(), b = mk(); e.Initialize(true, a); IO::MemoryStream is(in), os; e.Write(&is, &os); V sealed = os.ToArray();
			bool enc = r.chance(50); c.Initialize(enc, b); intr(true);
			if (!enc && m != CipherModes::CTR && m != CipherModes::CFB) h.bad("cut", [&] { V cut(sealed.begin(), sealed.end() - 1 - h.x.below(15)), out(600); c.Write(cut, 0, out, 0); });
			intr(true); IO::MemoryStream i2(enc ? in : sealed), o2; c.Write(&i2, &o2); h.note(o2.ToArray()); h.note(o2.ToArray() == (enc ? sealed : in));
		}
	});
	add("mac-stream", [](Hist& h) {
		Rng& r = h.r; Processing::MacStream c(r.pick(std::vector<Macs>{ Macs::HMACSHA2256, Macs::CMAC, Macs::KMAC256 })); h.what = "mac-stream";
		auto ks = c.LegalKeySizes()[0]; V in = h.x.bytes(40);
		h.bad("uninitialised", [&] { c.Compute(in, 0, 40); });
		V k = r.bytes(ks.KeySize()), n = r.bytes(ks.IVSize()); SymmetricKey kp = n.empty() ? SymmetricKey(k) : SymmetricKey(k, n); c.Initialize(kp);
		for (int i = 0; i < 2; ++i)
		{
			h.bad("range", [&] { c.Compute(in, 1, 40); }); h.bad("key-size", [&] { V b = h.x.bytes(3); SymmetricKey p(b); c.Initialize(p); });
			V m = r.bytes(r.range(1, 200)); if (i) { SymmetricKey kq = n.empty() ? SymmetricKey(k) : SymmetricKey(k, n); c.Initialize(kq); } h.note(c.Compute(m, 0, m.size()));
		}
	});
	add("digest-stream", [](Hist& h) {
		Rng& r = h.r; Processing::DigestStream c(r.pick(std::vector<Digests>{ Digests::SHA2256, Digests::Skein512, Digests::Blake256 })); V in = h.x.bytes(40);
		for (int i = 0; i < 2; ++i) { h.bad("range", [&] { c.Compute(in, 1 + h.x.below(60), 40); }); V m = r.bytes(r.range(1, 200)); h.note(c.Compute(m, 0, m.size())); }
	});
	add("keys", [](Hist& h) {
		Rng& r = h.r; V k = r.bytes(r.range(1, 64)), n = r.bytes(16); SymmetricKey p(k, n);
		h.bad("deserialize", [&] { auto s = SymmetricKey::Serialize(p); s.resize(h.x.below(s.size())); std::unique_ptr<SymmetricKey> q(SymmetricKey::DeSerialize(s)); });
		auto s = SymmetricKey::Serialize(p); std::unique_ptr<SymmetricKey> q(SymmetricKey::DeSerialize(s)); h.note(q->Key()); h.note(q->IV());
	});
	auto enc = [](Hist& h, auto& x, jobs::Known& g, AsymmetricPrimitives other, auto params) {
		(void)g; Rng& r = h.r; h.what = "asym:" + x.Name();
		std::unique_ptr<Asymmetric::AsymmetricKeyPair> kp(x.Generate());
		auto *pub = kp->PublicKey(), *prv = kp->PrivateKey();
		auto intr = [&] {
			h.bad("foreign-key", [&] { V p = pub->Polynomial(); Asymmetric::AsymmetricKey k(p, other, AsymmetricKeyTypes::CipherPublicKey, pub->Parameters()); x.Initialize(&k); });
			h.bad("key-size", [&] { V p = pub->Polynomial(); p.resize(h.x.range(1, p.size() - 1)); Asymmetric::AsymmetricKey k(p, pub->PrimitiveType(), AsymmetricKeyTypes::CipherPublicKey, pub->Parameters()); x.Initialize(&k); });
			h.bad("key-size", [&] { V p = prv->Polynomial(); p.resize(p.size() + h.x.range(1, 9)); Asymmetric::AsymmetricKey k(p, pub->PrimitiveType(), AsymmetricKeyTypes::CipherPrivateKey, pub->Parameters()); x.Initialize(&k); });
			h.bad("key-kind", [&] { V p = prv->Polynomial(); Asymmetric::AsymmetricKey k(p, pub->PrimitiveType(), AsymmetricKeyTypes::SignaturePublicKey, pub->Parameters()); x.Initialize(&k); });
		};
		(void)params; intr();
		V c, s(32), t(32); x.Initialize(pub); intr(); h.note(x.IsEncryption()); x.Encapsulate(c, s); h.note(c); h.note(s);
		x.Initialize(prv); intr(); h.note(x.IsEncryption());
		h.bad("cipher-text-size", t, [&] { V d(c); d.resize(h.x.below(d.size())); x.Decapsulate(d, t); });
		intr(); h.note(x.Decapsulate(c, t)); h.note(t); h.note(x.IsInitialized());
		(void)r;
	};
	add("kyber", [enc](Hist& h) { jobs::Known g(h.r.next()); auto p = h.r.pick(std::vector<KyberParameters>{ KyberParameters::KYBERS1P1632, KyberParameters::KYBERS3P2400, KyberParameters::KYBERS5P3168 }); Asymmetric::Encrypt::MLWE::Kyber x(p, &g); enc(h, x, g, AsymmetricPrimitives::McEliece, p); });
	auto sign = [](Hist& h, auto& x, AsymmetricPrimitives other) {
		h.what = "asym:" + x.Name(); Rng& r = h.r;
		std::unique_ptr<Asymmetric::AsymmetricKeyPair> kp(x.Generate()); auto *pub = kp->PublicKey(), *prv = kp->PrivateKey();
		V m = r.bytes(r.range(1, 100)), s, o;
		auto intr = [&](int ready) {
			h.bad("foreign-key", [&] { V p = pub->Polynomial(); Asymmetric::AsymmetricKey k(p, other, AsymmetricKeyTypes::SignaturePublicKey, pub->Parameters()); x.Initialize(&k); });
			h.bad("key-size", [&] { V p = pub->Polynomial(); p.resize(h.x.range(1, p.size() - 1)); Asymmetric::AsymmetricKey k(p, pub->PrimitiveType(), AsymmetricKeyTypes::SignaturePublicKey, pub->Parameters()); x.Initialize(&k); });
			h.bad("key-size", [&] { V p = prv->Polynomial(); p.resize(p.size() + h.x.range(1, 9)); Asymmetric::AsymmetricKey k(p, pub->PrimitiveType(), AsymmetricKeyTypes::SignaturePrivateKey, pub->Parameters()); x.Initialize(&k); });
			h.bad("key-kind", [&] { V p = pub->Polynomial(); Asymmetric::AsymmetricKey k(p, pub->PrimitiveType(), AsymmetricKeyTypes::CipherPublicKey, pub->Parameters()); x.Initialize(&k); });
			V t, u(s);
			if (ready != 1) h.bad("sign-not-ready", t, [&] { x.Sign(m, t); });
			if (ready == 0) h.bad("verify-not-ready", t, [&] { x.Verify(u, t); });
		};
		intr(0); x.Initialize(prv); intr(1); x.Sign(m, s); h.note(s); h.note(x.IsSigner());
		x.Initialize(pub); intr(2); h.note(x.IsSigner()); h.note(x.Verify(s, o)); h.note(o); intr(2); h.note(x.IsInitialized());
	};
	add("dilithium", [sign](Hist& h) { jobs::Known g(h.r.next()); Asymmetric::Sign::DLTM::Dilithium x(h.r.pick(std::vector<DilithiumParameters>{ DilithiumParameters::DLTMS1P2544, DilithiumParameters::DLTMS3P4016 }), &g); sign(h, x, AsymmetricPrimitives::ECDSA); });
	add("ecdsa", [sign](Hist& h) { jobs::Known g(h.r.next()); Asymmetric::Sign::ECDSA::ECDSA x(h.r.chance(50) ? ECDSAParameters::ECDSAS1P25519K : ECDSAParameters::ECDSAS2P25519S, &g); sign(h, x, AsymmetricPrimitives::Dilithium); });
	add("ecdh", [](Hist& h) {
		Rng& r = h.r; jobs::Known g(r.next()); Asymmetric::Encrypt::ECDH::ECDH x(r.chance(50) ? ECDHParameters::ECDHS1P25519K : ECDHParameters::ECDHS2P25519S, &g);
		V bad = h.x.bytes(other(h.x, { 32 }, 0, 64).size()); h.bad("seed-size", [&] { std::unique_ptr<Asymmetric::AsymmetricKeyPair> q(x.Generate(bad)); });
		std::unique_ptr<Asymmetric::AsymmetricKeyPair> p(x.Generate()), q(x.Generate());
		V s(32); 
		h.bad("key-kind", s, [&] { x.KeyExchange(p->PrivateKey(), q->PrivateKey(), s); });
		h.bad("key-kind", s, [&] { x.KeyExchange(p->PublicKey(), q->PublicKey(), s); });
		x.KeyExchange(p->PublicKey(), q->PrivateKey(), s); h.note(s);
	});
	if (cfg.thorough)
		add("sphincs", [sign](Hist& h) { jobs::Known g(h.r.next()); Asymmetric::Sign::SPXP::SphincsPlus x(SphincsPlusParameters::SPXPS1S128SHAKE, &g); sign(h, x, AsymmetricPrimitives::ECDSA); });
}

// Constructors that refuse their arguments: what the caller handed over is still the caller's, nothing is lost.
static void ctors(Rng& r)
{
	using namespace CEX::Cipher::Block::Mode;
	struct T { const char* n; std::function<void()> f; };
	uint64_t seed = r.next();
	// what the caller owns: on the heap, so that a second release is seen
	std::unique_ptr<jobs::Known> g(new jobs::Known(seed));
	std::unique_ptr<Cipher::Block::IBlockCipher> b(Helper::BlockCipherFromName::GetInstance(BlockCiphers::AES));
	std::unique_ptr<Digest::IDigest> d(Helper::DigestFromName::GetInstance(Digests::SHA2256)), wide(Helper::DigestFromName::GetInstance(Digests::Skein1024));
	std::unique_ptr<Provider::IProvider> p(new Provider::CSP);
	std::unique_ptr<Mac::IMac> m(Helper::MacFromName::GetInstance(Macs::HMACSHA2256));
	V none, k16 = r.bytes(16); SecureVector<uint8_t> snone, s16(16);
	Cipher::Block::IBlockCipher* nb = nullptr; Digest::IDigest* nd = nullptr; Provider::IProvider* np = nullptr; Prng::IPrng* ng = nullptr; Mac::IMac* nm = nullptr; ICipherMode* ncm = nullptr;
	std::vector<T> all = {
		{ "CBC", [&] { CBC x(BlockCiphers::None); } }, { "CBC*", [&] { CBC x(nb); } }, { "CTR", [&] { CTR x(BlockCiphers::None); } }, { "CTR*", [&] { CTR x(nb); } },
		{ "GCM", [&] { GCM x(BlockCiphers::None); } }, { "GCM*", [&] { GCM x(nb); } },
		{ "HBA", [&] { HBA x(BlockCiphers::None, StreamAuthenticators::KMAC256); } }, { "HBA*", [&] { HBA x(nb, StreamAuthenticators::KMAC256); } }, { "HBA-none", [&] { HBA x(b.get(), StreamAuthenticators::None); } },
		{ "CMAC", [&] { Mac::CMAC x(BlockCiphers::None); } }, { "CMAC*", [&] { Mac::CMAC x(nb); } }, { "GMAC", [&] { Mac::GMAC x(BlockCiphers::None); } }, { "GMAC*", [&] { Mac::GMAC x(nb); } },
		{ "HMAC", [&] { Mac::HMAC x(SHA2Digests::None); } }, { "HMAC*", [&] { Mac::HMAC x(nd); } },
		{ "HKDF", [&] { Kdf::HKDF x(SHA2Digests::None); } }, { "HKDF*", [&] { Kdf::HKDF x(nd); } }, { "KDF2", [&] { Kdf::KDF2 x(SHA2Digests::None); } }, { "KDF2*", [&] { Kdf::KDF2 x(nd); } },
		{ "PBKDF2", [&] { Kdf::PBKDF2 x(SHA2Digests::None); } }, { "PBKDF2*", [&] { Kdf::PBKDF2 x(nd); } },
		{ "BCG*", [&] { Drbg::BCG x(np); } }, { "CSG", [&] { Drbg::CSG x(ShakeModes::None); } }, { "CSG-mode", [&] { Drbg::CSG x(ShakeModes::None, p.get()); } }, { "CSG*", [&] { Drbg::CSG x(ShakeModes::SHAKE256, np); } },
		{ "HCG", [&] { Drbg::HCG x(SHA2Digests::None); } }, { "HCG*", [&] { Drbg::HCG x(nd); } }, { "HCG*p", [&] { Drbg::HCG x(nd, p.get()); } },
		{ "ECDH", [&] { Asymmetric::Encrypt::ECDH::ECDH x(ECDHParameters::None, g.get()); } }, { "ECDH*", [&] { Asymmetric::Encrypt::ECDH::ECDH x(ECDHParameters::ECDHS1P25519K, ng); } }, { "ECDH-prng", [&] { Asymmetric::Encrypt::ECDH::ECDH x(ECDHParameters::ECDHS1P25519K, Prngs::None); } },
		{ "ECDSA", [&] { Asymmetric::Sign::ECDSA::ECDSA x(ECDSAParameters::None, g.get()); } }, { "ECDSA*", [&] { Asymmetric::Sign::ECDSA::ECDSA x(ECDSAParameters::ECDSAS1P25519K, ng); } },
		{ "Kyber", [&] { Asymmetric::Encrypt::MLWE::Kyber x(KyberParameters::None, g.get()); } }, { "Kyber*", [&] { Asymmetric::Encrypt::MLWE::Kyber x(KyberParameters::KYBERS1P1632, ng); } }, { "Kyber-prng", [&] { Asymmetric::Encrypt::MLWE::Kyber x(KyberParameters::KYBERS1P1632, Prngs::None); } },
		{ "McEliece", [&] { Asymmetric::Encrypt::MPKC::McEliece x(McElieceParameters::None, g.get()); } }, { "McEliece*", [&] { Asymmetric::Encrypt::MPKC::McEliece x(McElieceParameters::MPKCS3N4608T96, ng); } },
		{ "Dilithium", [&] { Asymmetric::Sign::DLTM::Dilithium x(DilithiumParameters::None, g.get()); } }, { "Dilithium*", [&] { Asymmetric::Sign::DLTM::Dilithium x(DilithiumParameters::DLTMS1P2544, ng); } },
		{ "Sphincs", [&] { Asymmetric::Sign::SPXP::SphincsPlus x(SphincsPlusParameters::None, g.get()); } }, { "Sphincs*", [&] { Asymmetric::Sign::SPXP::SphincsPlus x(SphincsPlusParameters::SPXPS1S128SHAKE, ng); } },
		{ "CipherStream*", [&] { Processing::CipherStream x(ncm); } }, { "MacStream", [&] { Processing::MacStream x(Macs::None); } }, { "MacStream*", [&] { Processing::MacStream x(nm); } },
		{ "DigestStream", [&] { Processing::DigestStream x(Digests::None); } }, { "DigestStream*", [&] { Processing::DigestStream x(nd); } },
		{ "FileStream", [&] { IO::FileStream x("/nowhere/at/all", IO::FileStream::FileAccess::Read); } },
		{ "MemoryStream", [&] { IO::MemoryStream x(k16, 8, 9); } }, { "SecureStream", [&] { V k(k16); IO::SecureStream x(k, 8, 9); } },
		{ "SymmetricKey", [&] { SymmetricKey x(none); } }, { "SymmetricKey-s", [&] { SymmetricKey x(snone); } },
		{ "KeyGenerator", [&] { Cipher::SymmetricKeyGenerator x(SecurityPolicy::None, Providers::CSP); } }, { "KeyGenerator-p", [&] { Cipher::SymmetricKeyGenerator x(SecurityPolicy::SPL256, Providers::None); } },
		{ "ECB", [&] { ECB x(BlockCiphers::None); } }, { "ECB*", [&] { ECB x(nb); } }, { "CFB", [&] { CFB x(BlockCiphers::None); } }, { "CFB*", [&] { CFB x(nb); } }, { "OFB", [&] { OFB x(BlockCiphers::None); } }, { "OFB*", [&] { OFB x(nb); } }, { "ICM", [&] { ICM x(BlockCiphers::None); } }, { "ICM*", [&] { ICM x(nb); } },
		{ "KMAC", [&] { Mac::KMAC x(KmacModes::None); } }, { "KPA", [&] { Mac::KPA x(KpaModes::None); } }, { "SHAKE", [&] { Kdf::SHAKE x(ShakeModes::None); } }, { "SCBKDF", [&] { Kdf::SCBKDF x(ShakeModes::None); } },
		{ "BCR", [&] { Prng::BCR x(Providers::None); } }, { "CSR", [&] { Prng::CSR x(ShakeModes::None, Providers::CSP); } }, { "CSR-p", [&] { Prng::CSR x(ShakeModes::SHAKE256, Providers::None); } }, { "HCR", [&] { Prng::HCR x(SHA2Digests::None, Providers::CSP); } }, { "HCR-p", [&] { Prng::HCR x(SHA2Digests::SHA2256, Providers::None); } },
		{ "XMSS", [&] { Asymmetric::Sign::XMSS::XMSS x(XmssParameters::None, g.get()); } }, { "XMSS*", [&] { Asymmetric::Sign::XMSS::XMSS x(XmssParameters::XMSSSHA2256H10, ng); } },
		{ "RCS-state", [&] { SecureVector<uint8_t> q(9); Cipher::Stream::RCS x(q); } }, { "RWS-state", [&] { SecureVector<uint8_t> q(9); Cipher::Stream::RWS x(q); } }, { "CSX-state", [&] { SecureVector<uint8_t> q(9); Cipher::Stream::CSX512 x(q); } }, { "ChaCha-state", [&] { SecureVector<uint8_t> q(9); Cipher::Stream::ChaChaP20 x(q); } },
		{ "AsymmetricKey-primitive", [&] { Asymmetric::AsymmetricKey x(k16, AsymmetricPrimitives::None, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1)); } }, { "AsymmetricKey-s-primitive", [&] { Asymmetric::AsymmetricKey x(s16, AsymmetricPrimitives::None, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1)); } },
		{ "AsymmetricSecureKey-primitive", [&] { Asymmetric::AsymmetricSecureKey x(k16, k16, AsymmetricPrimitives::None, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1), SecurityPolicy::SPL256); } }, { "AsymmetricSecureKey-s-primitive", [&] { Asymmetric::AsymmetricSecureKey x(s16, s16, AsymmetricPrimitives::None, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1), SecurityPolicy::SPL256); } },
		{ "AsymmetricKey-class", [&] { Asymmetric::AsymmetricKey x(k16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::None, static_cast<AsymmetricParameters>(1)); } }, { "AsymmetricKey-s-class", [&] { Asymmetric::AsymmetricKey x(s16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::None, static_cast<AsymmetricParameters>(1)); } },
		{ "AsymmetricSecureKey-class", [&] { Asymmetric::AsymmetricSecureKey x(k16, k16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::None, static_cast<AsymmetricParameters>(1), SecurityPolicy::SPL256); } }, { "AsymmetricSecureKey-s-class", [&] { Asymmetric::AsymmetricSecureKey x(s16, s16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::None, static_cast<AsymmetricParameters>(1), SecurityPolicy::SPL256); } },
		{ "AsymmetricKey-set", [&] { Asymmetric::AsymmetricKey x(k16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::None); } }, { "AsymmetricKey-s-set", [&] { Asymmetric::AsymmetricKey x(s16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::None); } },
		{ "AsymmetricSecureKey-set", [&] { Asymmetric::AsymmetricSecureKey x(k16, k16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::None, SecurityPolicy::SPL256); } }, { "AsymmetricSecureKey-s-set", [&] { Asymmetric::AsymmetricSecureKey x(s16, s16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, AsymmetricParameters::None, SecurityPolicy::SPL256); } },
		{ "AsymmetricKey-s", [&] { Asymmetric::AsymmetricKey x(snone, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1)); } },
		{ "AsymmetricSecureKey", [&] { Asymmetric::AsymmetricSecureKey x(none, k16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1), SecurityPolicy::SPL256); } }, { "AsymmetricSecureKey-s", [&] { Asymmetric::AsymmetricSecureKey x(snone, s16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1), SecurityPolicy::SPL256); } },
		{ "AsymmetricSecureKey-policy", [&] { Asymmetric::AsymmetricSecureKey x(k16, k16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1), SecurityPolicy::None); } }, { "AsymmetricSecureKey-s-policy", [&] { Asymmetric::AsymmetricSecureKey x(s16, s16, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1), SecurityPolicy::None); } },
		{ "SymmetricSecureKey", [&] { Cipher::SymmetricSecureKey x(none); } }, { "SymmetricSecureKey-n", [&] { Cipher::SymmetricSecureKey x(none, none); } }, { "SymmetricSecureKey-i", [&] { Cipher::SymmetricSecureKey x(none, none, none); } }, { "SymmetricSecureKey-s", [&] { Cipher::SymmetricSecureKey x(snone); } }, { "SymmetricSecureKey-sn", [&] { Cipher::SymmetricSecureKey x(snone, snone); } }, { "SymmetricSecureKey-si", [&] { Cipher::SymmetricSecureKey x(snone, snone, snone); } },
		{ "SymmetricSecureKey-p", [&] { Cipher::SymmetricSecureKey x(none, SecurityPolicy::SPL256, k16); } }, { "SymmetricSecureKey-pi", [&] { Cipher::SymmetricSecureKey x(none, none, none, SecurityPolicy::SPL256, k16); } }, { "SymmetricSecureKey-policy", [&] { Cipher::SymmetricSecureKey x(k16, SecurityPolicy::None, k16); } }, { "SymmetricSecureKey-policy-s", [&] { Cipher::SymmetricSecureKey x(s16, s16, s16, SecurityPolicy::None, s16); } },
		{ "SymmetricKey-n", [&] { SymmetricKey x(none, none); } }, { "SymmetricKey-i", [&] { SymmetricKey x(none, none, none); } }, { "SymmetricKey-sn", [&] { SymmetricKey x(snone, snone); } }, { "SymmetricKey-si", [&] { SymmetricKey x(snone, snone, snone); } },
		{ "AsymmetricKey", [&] { V q; Asymmetric::AsymmetricKey x(q, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(1)); } },
		{ "SecureRandom", [&] { Prng::SecureRandom x(Prngs::None, Providers::CSP); } }, { "SecureRandom-p", [&] { Prng::SecureRandom x(Prngs::BCR, Providers::None); } },
		{ "f-block", [&] { delete Helper::BlockCipherFromName::GetInstance(BlockCiphers::None); } }, { "f-digest", [&] { delete Helper::DigestFromName::GetInstance(Digests::None); } }, { "f-mac", [&] { delete Helper::MacFromName::GetInstance(Macs::None); } },
		{ "f-kdf", [&] { delete Helper::KdfFromName::GetInstance(Kdfs::None); } }, { "f-mode", [&] { delete Helper::CipherModeFromName::GetInstance(BlockCiphers::AES, CipherModes::None); } }, { "f-mode-c", [&] { delete Helper::CipherModeFromName::GetInstance(BlockCiphers::None, CipherModes::CTR); } },
		{ "f-stream", [&] { delete Helper::StreamCipherFromName::GetInstance(StreamCiphers::None); } }, { "f-provider", [&] { delete Helper::ProviderFromName::GetInstance(Providers::None); } }, { "f-prng", [&] { delete Helper::PrngFromName::GetInstance(Prngs::None); } },
		{ "f-aead", [&] { delete Helper::AeadModeFromName::GetInstance(BlockCiphers::None, AeadModes::GCM); } }, { "f-aead-m", [&] { delete Helper::AeadModeFromName::GetInstance(BlockCiphers::AES, AeadModes::None); } },
	};
	for (int i = 0; i < 20; ++i)
	{
		const T& t = all[r.below(all.size())]; std::string e;
		outcome(t.f);                           // whatever is made once and kept
		life::start(); Outcome o = outcome(t.f, &e); size_t nb2, by; std::string at, who = life::stop(&nb2, &by, &at);
		expect(o == Threw, strf("accepted:ctor:%s", t.n), o == Returned ? "the constructor did not refuse" : "refused with a foreign exception: %s", e.c_str());
		expect(nb2 == 0, strf("leak:ctor:%s:%s", t.n, who.c_str()), "%zu blocks, %zu bytes left; first from %s", nb2, by, at.c_str());
		seen(strf("ctor %s", t.n), seed + i); count("refused constructions");
	}
	// the caller's objects still work
	V o(32), q(32); SymmetricKey kp(r.bytes(32)); b->Initialize(true, kp); V in(16), out(16); b->Transform(in, 0, out, 0);
	d->Update(in, 0, 16); d->Finalize(o, 0); p->Generate(q); g->Generate(q); SymmetricKey km(r.bytes(32)); m->Initialize(km); m->Update(in, 0, 16); m->Finalize(o, 0); wide->Update(in, 0, 16);
}
void cases()
{
	if (part("ctor")) for (size_t i = 0; i < reps(40, 2000); ++i) vh::run(strf("ctor:#%zu", i), ctors);
	if (!part("refuse")) return;
	build();
	for (auto& s : stories)
		for (size_t i = 0; i < reps(s.first == "sphincs" ? 1 : 60, s.first == "sphincs" ? 1 : 3000); ++i) vh::run(strf("refuse:%s#%zu", s.first.c_str(), i), [&](Rng& r) { twin(r, s.first, s.second); });
}
