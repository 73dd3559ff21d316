// Deterministic pieces of work, one per primitive: each makes its own instances, uses them, and returns
// a digest of everything they gave. Used to compare work done concurrently with the same work done alone,
// and to look at what a primitive leaves behind.
#pragma once
#include "h.h"
#include "ref.h"
#include "AeadModeFromName.h"
#include "BCG.h"
#include "BlockCipherFromName.h"
#include "CMAC.h"
#include "CSG.h"
#include "GMAC.h"
#include "CipherModeFromName.h"
#include "CipherStream.h"
#include "DigestFromName.h"
#include "DigestStream.h"
#include "Dilithium.h"
#include "DrbgFromName.h"
#include "ECDH.h"
#include "ECDSA.h"
#include "KdfFromName.h"
#include "Kyber.h"
#include "McEliece.h"
#include "MacFromName.h"
#include "MacStream.h"
#include "MemoryStream.h"
#include "PaddingFromName.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "SCBKDF.h"
#include "SecureRandom.h"
#include "SecureStream.h"
#include "SphincsPlus.h"
#include "StreamCipherFromName.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "SymmetricKey.h"
#include "SymmetricKeyGenerator.h"
#include "SymmetricSecureKey.h"
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "AsymmetricSecureKey.h"
#include "XMSS.h"
#include <algorithm>
#include <memory>

namespace jobs
{
	using namespace vh;
	using namespace CEX;
	using namespace CEX::Enumeration;
	using CEX::Cipher::SymmetricKey;

	// a generator whose output is a known stream
	struct Known : Prng::IPrng
	{
		Rng r;
		explicit Known(uint64_t s) : r(s) {}
		const Prngs Enumeral() override { return Prngs::BCR; }
		const std::string Name() override { return "known"; }
		uint8_t byte() { return (uint8_t)r.next(); }
		void Generate(std::vector<uint8_t>& o, size_t off, size_t n) override { for (size_t i = 0; i < n; ++i) o.at(off + i) = byte(); }
		void Generate(SecureVector<uint8_t>& o, size_t off, size_t n) override { for (size_t i = 0; i < n; ++i) o.at(off + i) = byte(); }
		void Generate(std::vector<uint8_t>& o) override { Generate(o, 0, o.size()); }
		void Generate(SecureVector<uint8_t>& o) override { Generate(o, 0, o.size()); }
		uint16_t NextUInt16() override { return (uint16_t)NextUInt64(); }
		uint32_t NextUInt32() override { return (uint32_t)NextUInt64(); }
		uint64_t NextUInt64() override { uint64_t x = 0; for (int i = 0; i < 8; ++i) x = x << 8 | byte(); return x; }
		void Reset() override {}
	};

	// weight: how slow it is, 1 = a millisecond or so without instrumentation
	struct Job { std::string name; unsigned weight; std::function<uint64_t(Rng&)> f; };
	template<class V> uint64_t h(const V& v) { return hash(v.data(), v.size()); }
	inline size_t some(Rng& r) { return r.chance(70) ? r.range(1, 300) : r.range(300, 20000); }

	inline uint64_t mode(Rng& r, BlockCiphers b, CipherModes m, bool par)
	{
		std::unique_ptr<Cipher::Block::Mode::ICipherMode> c(Helper::CipherModeFromName::GetInstance(b, m));
		SymmetricKey k(r.bytes(32), m == CipherModes::ECB ? Bytes() : r.bytes(16));
		bool enc = r.chance(50); c->Initialize(enc, k);
		size_t n = 16 * r.range(1, 40);
		if (par && m != CipherModes::OFB)
		{
			auto& p = c->ParallelProfile(); size_t deg = r.pick(std::vector<size_t>{ 2, 4 });
			c->ParallelMaxDegree(std::min(deg, std::max<size_t>(p.ProcessorCount(), 1))); p.IsParallel() = true; p.SetBlockSize(p.ParallelMinimumSize());
			n = p.ParallelBlockSize() * r.range(1, 3) + (m == CipherModes::CTR || m == CipherModes::ICM ? r.below(100) : 0);
		}
		else if (m != CipherModes::OFB) c->ParallelProfile().IsParallel() = false;
		Bytes in = r.bytes(n), out(n);
		switch (par ? 3 : r.below(5))
		{
			case 0: for (size_t o = 0; o + 16 <= n; o += 16) enc ? c->EncryptBlock(in, o, out, o) : c->DecryptBlock(in, o, out, o); break;
			case 1: for (size_t o = 0; o + 16 <= n; o += 16) { Bytes a(in.begin() + o, in.begin() + o + 16), b(16); enc ? c->EncryptBlock(a, b) : c->DecryptBlock(a, b); std::copy(b.begin(), b.end(), out.begin() + o); } break;
			case 2: { c->Transform(in, 0, out, 0, n); uint64_t x = h(out); c->Initialize(!enc, k); Bytes back(n); c->Transform(out, 0, back, 0, n); return x ^ h(back); }
			default: c->Transform(in, 0, out, 0, n);
		}
		return h(out);
	}
	template<class S> uint64_t signer(Rng& r, S& x, Known& g, AsymmetricPrimitives)
	{
		std::unique_ptr<Asymmetric::AsymmetricKeyPair> kp(x.Generate());
		auto *pub = kp->PublicKey(), *prv = kp->PrivateKey();
		std::vector<uint8_t> m = r.bytes(r.range(1, 100)), s, o;
		x.Initialize(prv); x.Sign(m, s);
		x.Initialize(pub); bool ok = x.Verify(s, o);
		return h(s) ^ h(o) ^ ok;
	}
	inline std::vector<Job> all(bool heavy)
	{
		std::vector<Job> j;
		auto add = [&](const std::string& n, unsigned w, std::function<uint64_t(Rng&)> f) { j.push_back({ n, w, f }); };
		const std::vector<BlockCiphers> bc = { BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXH256, BlockCiphers::RHXH512, BlockCiphers::RHXS256, BlockCiphers::RHXS512, BlockCiphers::SHXH256, BlockCiphers::SHXH512, BlockCiphers::SHXS256, BlockCiphers::SHXS512 };
		const std::vector<CipherModes> ms = { CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM };
		add("mode", 1, [=](Rng& r) { auto b = r.pick(bc); return mode(r, b, r.pick(ms), false); });
		add("parallel-mode", 2, [=](Rng& r) { auto b = r.pick(bc); return mode(r, b, r.pick(ms), true); });
		add("aead", 2, [=](Rng& r) {
			auto am = r.pick(std::vector<AeadModes>{ AeadModes::GCM, AeadModes::HBAH256, AeadModes::HBAH512, AeadModes::HBAS256, AeadModes::HBAS512 });
			auto b = r.pick(am == AeadModes::GCM ? bc : std::vector<BlockCiphers>{ BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXS256 });
			std::unique_ptr<Cipher::Block::Mode::IAeadMode> c(Helper::AeadModeFromName::GetInstance(b, am));
			SymmetricKey k(r.bytes(32), r.bytes(16)); c->Initialize(true, k);
			Bytes a = r.bytes(r.range(1, 40)), in = r.bytes(some(r)), out(in.size() + c->TagSize());
			if (r.chance(30)) { auto& p = c->ParallelProfile(); p.IsParallel() = true; p.SetBlockSize(p.ParallelMinimumSize()); }
			c->SetAssociatedData(a, 0, a.size()); c->Transform(in, 0, out, 0, in.size());
			uint64_t x = h(out);
			if (r.chance(50))
			{
				c->Initialize(false, k); c->SetAssociatedData(a, 0, a.size()); Bytes back(in.size()); bool spoil = r.chance(40), ok = true; if (spoil) out[r.below(out.size())] ^= 1;
				try { c->Transform(out, 0, back, 0, in.size()); } catch (CEX::Exception::CryptoAuthenticationFailure&) { ok = false; }
				x ^= ok ? h(back) : 1;
			}
			return x; });
		add("stream", 2, [](Rng& r) {
			auto e = r.pick(std::vector<StreamCiphers>{ StreamCiphers::ChaChaP20, StreamCiphers::CSXR20K256, StreamCiphers::CSX512, StreamCiphers::CSXR80K512, StreamCiphers::RCS, StreamCiphers::RCSK256, StreamCiphers::RWS, StreamCiphers::RWSK512, StreamCiphers::TSX256, StreamCiphers::TSXR72K256, StreamCiphers::TSX512, StreamCiphers::TSXR96K512, StreamCiphers::TSX1024, StreamCiphers::TSXR120K512 });
			std::unique_ptr<Cipher::Stream::IStreamCipher> c(Helper::StreamCipherFromName::GetInstance(e));
			auto ks = r.pick(c->LegalKeySizes()); SymmetricKey k(r.bytes(ks.KeySize()), r.bytes(ks.IVSize())); c->Initialize(true, k);
			Bytes in = r.bytes(some(r)), out(in.size() + c->TagSize() + 64); if (c->IsAuthenticator() && r.chance(50)) { Bytes a = r.bytes(20); c->SetAssociatedData(a, 0, 20); }
			c->Transform(in, 0, out, 0, in.size());
			uint64_t x = h(out);
			if (!c->IsAuthenticator() && r.chance(50)) { c->Initialize(false, k); Bytes back(in.size()); c->Transform(out, 0, back, 0, in.size()); x ^= h(back); }
			return x; });
		add("digest", 1, [](Rng& r) {
			auto e = r.pick(std::vector<Digests>{ Digests::Blake256, Digests::Blake512, Digests::SHA2256, Digests::SHA2512, Digests::SHA3256, Digests::SHA3512, Digests::Skein256, Digests::Skein512, Digests::Skein1024 });
			std::unique_ptr<Digest::IDigest> d(Helper::DigestFromName::GetInstance(e, r.chance(40)));
			Bytes m = r.bytes(r.chance(70) ? r.below(400) : r.below(40000)), o(d->DigestSize());
			size_t k = r.below(m.size() + 1); if (k) d->Update(m, 0, k); if (m.size() > k) d->Update(m, k, m.size() - k); d->Finalize(o, 0);
			uint64_t x = h(o);
			if (r.chance(30)) { std::vector<uint8_t> c(d->DigestSize()); d->Compute(m, c); x ^= 3 * h(c); }
			if (r.chance(20)) { d->Update((uint8_t)7); d->Update((uint32_t)9); d->Update((uint64_t)11); d->Reset(); d->Finalize(o, 0); x ^= 5 * h(o); }
			return x; });
		add("mac", 1, [](Rng& r) {
			auto e = r.pick(std::vector<Macs>{ Macs::CMAC, Macs::CMACRHXH512, Macs::CMACRHXS256, Macs::GMAC, Macs::GMACRHXH256, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KPA128, Macs::KPA256, Macs::KPA512, Macs::KMAC256, Macs::KMAC512, Macs::Poly1305 });
			std::unique_ptr<Mac::IMac> c(Helper::MacFromName::GetInstance(e));
			auto ks = r.pick(c->LegalKeySizes()); SymmetricKey k(r.bytes(ks.KeySize()), ks.IVSize() ? r.bytes(ks.IVSize()) : Bytes()); c->Initialize(k);
			Bytes m = r.bytes(some(r)), o(c->TagSize()); c->Update(m, 0, m.size()); c->Finalize(o, 0);
			uint64_t x = h(o);
			if (r.chance(40)) { c->Initialize(k); c->Update(m, 0, 1); SecureVector<uint8_t> v(c->TagSize()); c->Finalize(v, 0); x ^= 3 * h(v); }
			if (r.chance(30)) { c->Initialize(k); c->Compute(m, o); x ^= 5 * h(o); }
			return x; });
		add("kdf", 2, [](Rng& r) {
			auto e = r.pick(std::vector<Kdfs>{ Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::KDF2256, Kdfs::KDF2512, Kdfs::PBKDF2256, Kdfs::PBKDF2512, Kdfs::SHAKE128, Kdfs::SHAKE256, Kdfs::SHAKE512 });
			std::unique_ptr<Kdf::IKdf> c(Helper::KdfFromName::GetInstance(e));
			SymmetricKey k(r.bytes(64), r.bytes(32)); c->Initialize(k);
			std::vector<uint8_t> o(r.range(1, 600)); c->Generate(o); uint64_t x = h(o);
			if (r.chance(40)) { SecureVector<uint8_t> v(r.range(1, 100)); c->Generate(v, 0, v.size()); x ^= 3 * h(v); }
			if (r.chance(30)) { c->Reset(); c->Initialize(k); std::unique_ptr<SymmetricKey> z(new SymmetricKey(r.bytes(32))); c->Generate(o, 0, o.size()); x ^= 5 * h(o); }
			return x; });
		add("drbg", 2, [](Rng& r) {
			auto e = r.pick(std::vector<Drbgs>{ Drbgs::BCG, Drbgs::CSG, Drbgs::HCG });
			std::unique_ptr<Drbg::IDrbg> g(Helper::DrbgFromName::GetInstance(e, e == Drbgs::CSG ? Digests::SHAKE256 : Digests::SHA2512, Providers::None));
			auto ks = r.pick(g->LegalKeySizes()); SymmetricKey k(r.bytes(ks.KeySize()), ks.IVSize() ? r.bytes(ks.IVSize()) : Bytes()); g->Initialize(k);
			std::vector<uint8_t> o(r.range(1, 3000)); g->Generate(o); uint64_t x = h(o);
			if (r.chance(40)) { auto zk = r.pick(g->LegalKeySizes()); SecureVector<uint8_t> z(zk.KeySize()); auto b = r.bytes(z.size()); std::copy(b.begin(), b.end(), z.begin()); g->Update(z); SecureVector<uint8_t> v(r.range(1, 200)); g->Generate(v, 0, v.size()); x ^= 3 * h(v); }
			return x; });
		add("padding", 1, [](Rng& r) {
			std::unique_ptr<Cipher::Block::Padding::IPadding> p(Helper::PaddingFromName::GetInstance(r.pick(std::vector<PaddingModes>{ PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ESP, PaddingModes::ZeroOne })));
			Bytes b = r.bytes(16); size_t off = r.range(1, 15); p->AddPadding(b, off, 16);
			uint64_t x = p->Enumeral() == PaddingModes::X923 || p->Enumeral() == PaddingModes::ESP ? 0 : h(b); return x ^ p->GetBlockLength(b) ^ 32 * p->GetBlockLength(b, 0, 16); });
		add("memorystream", 1, [](Rng& r) {
			Bytes b = r.bytes(r.range(1, 400)), o(b.size()); IO::MemoryStream s; s.Write(b, 0, b.size()); s.Seek(0, IO::SeekOrigin::Begin); s.Read(o, 0, o.size()); s.SetLength(b.size() / 2); auto v = s.ToArray(); return h(o) ^ 3 * h(v); });
		add("asymkeys", 2, [](Rng& r) {
			Known g(r.next()); Asymmetric::Encrypt::MLWE::Kyber x(KyberParameters::KYBERS1P1632, &g); std::unique_ptr<Asymmetric::AsymmetricKeyPair> kp(x.Generate());
			auto b = Asymmetric::AsymmetricKey::Serialize(*kp->PrivateKey()); std::unique_ptr<Asymmetric::AsymmetricKey> k(Asymmetric::AsymmetricKey::DeSerialize(b)); auto p = kp->PublicKey()->Polynomial(); auto q = k->Polynomial(); return h(b) ^ 3 * h(q) ^ 5 * h(p); });
		add("prng", 3, [](Rng& r) {
			// not deterministic: only that it works
			std::vector<uint8_t> o(r.range(8, 200)), z;
			switch (r.below(3))
			{
				case 0: { std::unique_ptr<Provider::IProvider> p(Helper::ProviderFromName::GetInstance(r.pick(std::vector<Providers>{ Providers::CSP, Providers::RDP, Providers::ACP }))); p->Generate(o); break; }
				case 1: { std::unique_ptr<Prng::IPrng> p(Helper::PrngFromName::GetInstance(r.pick(std::vector<Prngs>{ Prngs::BCR, Prngs::CSR, Prngs::HCR }), r.chance(50) ? Providers::CSP : Providers::RDP)); p->Generate(o); break; }
				default: { Prng::SecureRandom p(r.pick(std::vector<Prngs>{ Prngs::BCR, Prngs::CSR, Prngs::HCR }), Providers::CSP); p.Generate(o); break; }
			}
			z.assign(o.size(), 0); return (uint64_t)(o != z); });
		add("keys", 1, [](Rng& r) {
			Bytes k = r.bytes(r.range(16, 128)), n = r.bytes(16); std::vector<uint8_t> salt = r.bytes(16);
			Cipher::SymmetricSecureKey s(k, n, SecurityPolicy::SPL256, salt); std::unique_ptr<Cipher::SymmetricSecureKey> c(s.Clone());
			auto a = c->SecureKey(); auto b = s.SecureIV();
			SymmetricKey p(k, n); auto ms = SymmetricKey::Serialize(p); std::unique_ptr<SymmetricKey> q(SymmetricKey::DeSerialize(ms));
			auto x = q->Key();
			return h(a) ^ 3 * h(b) ^ 5 * h(x); });
		add("keygen", 2, [](Rng& r) {
			Cipher::SymmetricKeyGenerator g(SecurityPolicy::SPL256, Providers::CSP); Cipher::SymmetricKeySize z(r.range(16, 64), 16, 0);
			std::unique_ptr<SymmetricKey> k(g.GetSymmetricKey(z)); return (uint64_t)k->Key().size(); });
		add("securestream", 1, [](Rng& r) {
			Bytes b = r.bytes(r.range(1, 400)); IO::SecureStream s(b, 7); s.Seek(b.size() / 2, IO::SeekOrigin::Begin); s.Write(b, 0, b.size() / 2 + 1); auto o = s.ToArray(); return h(o); });
		add("processor", 2, [](Rng& r) {
			Processing::CipherStream c(r.chance(50) ? BlockCiphers::AES : BlockCiphers::RHXS256, r.chance(50) ? CipherModes::CBC : CipherModes::CTR, PaddingModes::PKCS7);
			Bytes k = r.bytes(32), n = r.bytes(16); SymmetricKey kp(k, n); c.Initialize(true, kp);
			IO::MemoryStream i(r.bytes(some(r))), o; c.Write(&i, &o); auto v = o.ToArray(); return h(v); });
		add("ecdh", 3, [](Rng& r) {
			Known g(r.next()); Asymmetric::Encrypt::ECDH::ECDH x(r.chance(50) ? ECDHParameters::ECDHS1P25519K : ECDHParameters::ECDHS2P25519S, &g);
			std::unique_ptr<Asymmetric::AsymmetricKeyPair> p(x.Generate()), q(x.Generate());
						std::vector<uint8_t> s(32), t(32); x.KeyExchange(p->PublicKey(), q->PrivateKey(), s); x.KeyExchange(q->PublicKey(), p->PrivateKey(), t); return h(s) ^ 3 * h(t); });
		add("ecdsa", 4, [](Rng& r) { Known g(r.next()); Asymmetric::Sign::ECDSA::ECDSA x(ECDSAParameters::ECDSAS1P25519K, &g); return signer(r, x, g, AsymmetricPrimitives::ECDSA); });
		add("kyber", 3, [](Rng& r) {
			Known g(r.next()); Asymmetric::Encrypt::MLWE::Kyber x(r.pick(std::vector<KyberParameters>{ KyberParameters::KYBERS1P1632, KyberParameters::KYBERS3P2400, KyberParameters::KYBERS5P3168 }), &g);
			std::unique_ptr<Asymmetric::AsymmetricKeyPair> kp(x.Generate()); auto *pub = kp->PublicKey(), *prv = kp->PrivateKey();
			std::vector<uint8_t> c, s(32), t(32); x.Initialize(pub); x.Encapsulate(c, s); x.Initialize(prv); bool ok = x.Decapsulate(c, t);
			return h(c) ^ h(s) ^ 3 * h(t) ^ ok; });
		add("dilithium", 6, [](Rng& r) { Known g(r.next()); Asymmetric::Sign::DLTM::Dilithium x(r.pick(std::vector<DilithiumParameters>{ DilithiumParameters::DLTMS1P2544, DilithiumParameters::DLTMS3P4016 }), &g); return signer(r, x, g, AsymmetricPrimitives::Dilithium); });
		add("block", 1, [=](Rng& r) {
			std::unique_ptr<Cipher::Block::IBlockCipher> c(Helper::BlockCipherFromName::GetInstance(r.pick(bc))); auto ks = r.pick(c->LegalKeySizes()); Bytes info = ks.InfoSize() && r.chance(50) ? r.bytes(r.range(1, ks.InfoSize())) : Bytes();
			std::unique_ptr<SymmetricKey> k(info.empty() ? new SymmetricKey(r.bytes(ks.KeySize())) : new SymmetricKey(r.bytes(ks.KeySize()), Bytes(), info)); bool e = r.chance(50); c->Initialize(e, *k);
			Bytes in = r.bytes(256), out(256); c->Transform(in, 0, out, 0); c->Transform(in, 16, out, 16); if (r.chance(50)) { c->Initialize(!e, *k); c->Transform(out, 0, in, 0); } return h(out) ^ 3 * h(in); });
		add("owned", 2, [=](Rng& r) {
			// built on an object of the caller, who keeps it
			auto mac = [&](Mac::IMac& m, bool iv) { SymmetricKey k(r.bytes(32), iv ? r.bytes(16) : Bytes()); m.Initialize(k); Bytes in = r.bytes(100), o(m.TagSize()); m.Update(in, 0, 100); m.Finalize(o, 0); return h(o); };
			auto drbg = [&](Drbg::IDrbg& d) { auto ks = r.pick(d.LegalKeySizes()); SymmetricKey k(r.bytes(ks.KeySize()), ks.IVSize() ? r.bytes(ks.IVSize()) : Bytes()); d.Initialize(k); std::vector<uint8_t> o(100); d.Generate(o); return h(o); };
			std::unique_ptr<Cipher::Block::IBlockCipher> e(Helper::BlockCipherFromName::GetInstance(r.pick(bc)));
			std::unique_ptr<Provider::IProvider> p(Helper::ProviderFromName::GetInstance(Providers::CSP));
			uint64_t x = 0;
			switch (r.below(8))
			{
				case 0: case 1: case 2: { std::unique_ptr<Cipher::Block::Mode::ICipherMode> c(Helper::CipherModeFromName::GetInstance(e.get(), r.pick(std::vector<CipherModes>{ CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM }))); SymmetricKey k(r.bytes(32), r.bytes(16)); c->Initialize(true, k); Bytes in = r.bytes(160), out(160); c->Transform(in, 0, out, 0, 160); x = h(out); break; }
				case 3: case 4: { std::unique_ptr<Cipher::Block::Mode::IAeadMode> c(Helper::AeadModeFromName::GetInstance(e.get(), r.pick(std::vector<AeadModes>{ AeadModes::GCM, AeadModes::HBAH256, AeadModes::HBAS512 }))); SymmetricKey k(r.bytes(32), r.bytes(16)); c->Initialize(true, k); Bytes in = r.bytes(100), out(100 + c->TagSize()); c->Transform(in, 0, out, 0, 100); x = h(out); break; }
				case 5: { Mac::CMAC m(e.get()); x = mac(m, false); break; }
				case 6: { Mac::GMAC m(e.get()); x = mac(m, true); break; }
				default: { if (r.chance(50)) { Drbg::BCG m(p.get()); drbg(m); } else { Drbg::CSG m(ShakeModes::SHAKE256, p.get()); drbg(m); } break; }
			}
			return x ^ (uint64_t)e->Enumeral() ^ p->IsAvailable(); });
		add("asymsecure", 2, [](Rng& r) {
			Asymmetric::AsymmetricSecureKey k(r.bytes(r.range(1, 500)), r.bytes(r.range(4, 32)), AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, AsymmetricParameters::KYBERS3P2400, r.pick(std::vector<SecurityPolicy>{ SecurityPolicy::SPL256, SecurityPolicy::SPL512 }));
			auto p = k.Polynomial(); auto s = Asymmetric::AsymmetricSecureKey::Serialize(k); std::unique_ptr<Asymmetric::AsymmetricKey> q(Asymmetric::AsymmetricSecureKey::DeSerialize(s)); auto t = q->Polynomial(); return h(p) ^ 3 * h(s) ^ 5 * h(t); });
		add("macstream", 1, [](Rng& r) {
			Processing::MacStream c(r.pick(std::vector<Macs>{ Macs::HMACSHA2256, Macs::CMAC, Macs::KMAC256 })); Bytes k = r.bytes(32); SymmetricKey kp(k); c.Initialize(kp);
			Bytes in = r.bytes(some(r)); auto a = c.Compute(in, 0, in.size()); c.Initialize(kp); IO::MemoryStream m(in); auto b = c.Compute(&m); return h(a) ^ 3 * h(b); });
		add("digeststream", 2, [](Rng& r) {
			Processing::DigestStream c(r.pick(std::vector<Digests>{ Digests::SHA2256, Digests::SHA3512, Digests::Skein512, Digests::Blake256 }), r.chance(40)); Bytes in = r.bytes(some(r)); auto a = c.Compute(in, 0, in.size()); IO::MemoryStream m(in); auto b = c.Compute(&m); return h(a) ^ 3 * h(b); });
		add("scbkdf", 4, [](Rng& r) {
			Kdf::SCBKDF c(r.pick(std::vector<ShakeModes>{ ShakeModes::SHAKE128, ShakeModes::SHAKE256, ShakeModes::SHAKE512 }), r.range(1, 3), 0); SymmetricKey k(r.bytes(64), r.bytes(32)); c.Initialize(k); std::vector<uint8_t> o(r.range(1, 200)); c.Generate(o); return h(o); });
		add("streamwriter", 1, [](Rng& r) {
			IO::StreamWriter w(r.below(64)); Bytes b = r.bytes(r.range(1, 60)); w.Write((uint32_t)r.next()); w.Write(b); w.Write((uint8_t)7); IO::MemoryStream m(w.Generate()); IO::StreamReader d(m); auto x = d.ReadBytes(4); auto y = d.ReadBytes(b.size()); return h(x) ^ 3 * h(y) ^ d.ReadByte(); });
		add("keypair", 1, [](Rng& r) {
			Bytes t = r.bytes(r.range(1, 40)); auto one = [&](AsymmetricKeyTypes c) { return std::unique_ptr<Asymmetric::AsymmetricKey>(new Asymmetric::AsymmetricKey(r.bytes(r.range(1, 300)), AsymmetricPrimitives::Dilithium, c, AsymmetricParameters::DLTMS1P2544)); };
			auto v = one(AsymmetricKeyTypes::SignaturePrivateKey), b = one(AsymmetricKeyTypes::SignaturePublicKey); Asymmetric::AsymmetricKeyPair kp(v.get(), b.get(), t); v.release(); b.release(); return h(kp.Tag()) ^ 3 * h(kp.PublicKey()->Polynomial()) ^ 5 * h(kp.PrivateKey()->Polynomial()); });
		if (heavy)
		{
			add("xmss", 2000, [](Rng& r) { Known g(r.next()); Asymmetric::Sign::XMSS::XMSS x(XmssParameters::XMSSMTSHA2256H20D4, &g); return signer(r, x, g, AsymmetricPrimitives::XMSS); });
			add("sphincs", 2000, [](Rng& r) { Known g(r.next()); Asymmetric::Sign::SPXP::SphincsPlus x(SphincsPlusParameters::SPXPS1S128SHAKE, &g); return signer(r, x, g, AsymmetricPrimitives::SphincsPlus); });
			add("mceliece", 2000, [](Rng& r) {
				Known g(r.next()); Asymmetric::Encrypt::MPKC::McEliece x(McElieceParameters::MPKCS3N4608T96, &g);
				std::unique_ptr<Asymmetric::AsymmetricKeyPair> kp(x.Generate()); auto *pub = kp->PublicKey(), *prv = kp->PrivateKey();
				std::vector<uint8_t> c, s(32), t(32); x.Initialize(pub); x.Encapsulate(c, s); x.Initialize(prv); bool ok = x.Decapsulate(c, t);
				return h(c) ^ h(s) ^ 3 * h(t) ^ ok; });
		}
		return j;
	}
}
