// Identifiers, names and factories: what has a name, what the name leads back to, and what the factories give for it.
#include "h.h"
#include "names_tab.h"
#include "AeadModeFromName.h"
#include "AsymmetricCipherFromName.h"
#include "AsymmetricSignerFromName.h"
#include "BlockCipherFromName.h"
#include "CipherModeFromName.h"
#include "DigestFromName.h"
#include "DrbgFromName.h"
#include "KdfFromName.h"
#include "MacFromName.h"
#include "PaddingFromName.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "StreamCipherFromName.h"
#include "CryptoAsymmetricException.h"
#include "CryptoCipherModeException.h"
#include "CryptoDigestException.h"
#include "CryptoException.h"
#include "CryptoGeneratorException.h"
#include "CryptoKdfException.h"
#include "CryptoKmsException.h"
#include "CryptoMacException.h"
#include "CryptoNetworkingException.h"
#include "CryptoPaddingException.h"
#include "CryptoProcessingException.h"
#include "CryptoRandomException.h"
#include "CryptoSocketException.h"
#include "CryptoSymmetricException.h"
#include "CryptoAuthenticationFailure.h"
#include "SymmetricKey.h"
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
typedef std::vector<uint8_t> V;

template<class E, class C> static void names(const char* en, const std::vector<std::pair<std::string, E>>& ids)
{
	run(strf("names:%s#0", en), [&](Rng& r)
	{
		std::map<std::string, std::string> owner;
		for (auto& i : ids)
		{
			std::string n = C::ToName(i.second), k = std::string("names:") + i.first;
			expect(n != "None" && !n.empty(), k + ":unnamed", "%s has no name", i.first.c_str());
			if (n == "None" || n.empty()) continue;
			expect(owner.emplace(n, i.first).second, k + ":shared", "the name %s of %s is also that of %s", n.c_str(), i.first.c_str(), owner[n].c_str());
			std::string arg = n;
			E b = C::FromName(arg);
			expect(b == i.second, k + ":back", "the name %s of %s leads to %u (%s) instead of %u", n.c_str(), i.first.c_str(), (unsigned)b, C::ToName(b).c_str(), (unsigned)i.second);
			expect(arg == n, k + ":argument", "the name passed in was changed to %s", arg.c_str());
			seen(k, hash(n)); count("names that lead back");
			// near misses lead nowhere, or to the identifier that has this very name
			for (int t = 0; t < 8; ++t)
			{
				std::string m = n;
				switch (r.below(6))
				{
					case 0: m += (char)('0' + r.below(10)); break;
					case 1: m.pop_back(); break;
					case 2: m = m.substr(1); break;
					case 3: m[r.below(m.size())] ^= (char)(1 << r.below(7)); break;
					case 4: m += std::string(1, '\0'); break;
					default: m = " " + m; break;
				}
				std::string was = m;
				E x = C::FromName(m);
				bool known = x == (E)0 || C::ToName(x) == was;
				// older names that are still understood
				static const std::set<std::string> ALIAS{ "Rijndael", "RHX" };
				expect(known || ALIAS.count(was), k + ":near", "the name '%s' leads to %s", was.c_str(), C::ToName(x).c_str());
				seen(k + ":near", hash(was)); count("names that lead nowhere");
			}
		}
		for (std::string s : { "", "none", "x", "\xff" }) { std::string a = s; expect(C::FromName(a) == (E)0, strf("names:%s:unknown", en), "the name '%s' leads to something", s.c_str()); }
	});
}

#define PAIRS(E, C, ...) names<E, C>(#E, tag<E>(#__VA_ARGS__, { __VA_ARGS__ }));
template<class E> static std::vector<std::pair<std::string, E>> tag(const char* text, std::vector<E> v)
{
	std::vector<std::pair<std::string, E>> o; std::string s = text; size_t p = 0;
	for (auto e : v) { size_t q = s.find(',', p); std::string t = s.substr(p, q == std::string::npos ? q : q - p); while (!t.empty() && t[0] == ' ') t.erase(0, 1); o.push_back({ t, e }); p = q + 1; }
	return o;
}


// ---- factories ----
template<class O> using Ptr = std::unique_ptr<O>;
// what a factory gives for each identifier: an object that says it is what was asked for, or a refusal
template<class E, class C, class O> static void factory(const char* what, const std::vector<std::pair<std::string, E>>& ids, const std::set<E>& refused,
	const std::function<O*(E)>& make, const std::function<void(const std::string&, E, O&, Rng&)>& judge)
{
	for (size_t rep = 0; rep < reps(2, 10); ++rep)
	for (auto& i : ids) run(strf("factory:%s:%s#%zu", what, i.first.c_str(), rep), [&](Rng& r)
	{
		std::string k = strf("factory:%s:%s", what, i.first.c_str()), e;
		Ptr<O> o;
		Outcome oc = outcome([&] { o.reset(make(i.second)); }, &e);
		if (refused.count(i.second)) { expect(oc == Threw, k + ":refused", "an identifier that has no implementation gave an object"); count("identifiers refused"); return; }
		if (!expect(oc == Returned && o, k + ":made", "nothing was made: %s", e.c_str())) return;
		judge(k, i.second, *o, r);
		seen(k, r.next()); count("objects judged");
	});
	run(strf("factory:%s:unknown#0", what), [&](Rng&)
	{
		for (unsigned v = 0; v < 256; ++v)
		{
			bool declared = false;
			for (auto& i : ids) declared |= (unsigned)i.second == v;
			if (declared) continue;
			std::string e; Ptr<O> o;
			Outcome oc = outcome([&] { o.reset(make((E)v)); }, &e);
			expect(oc == Threw, strf("factory:%s:unknown", what), "value %u, which is not an identifier, %s %s", v, oc == Returned ? "gave an object" : "raised a foreign exception", e.c_str());
			seen(strf("factory:%s:unknown%u", what, v), oc); count("values refused");
		}
	});
}
#define IDS(E, ...) tag<E>(#__VA_ARGS__, { __VA_ARGS__ })
#define TABLE(E, C, ...) template<> const std::vector<std::pair<std::string, E>>& ids<E>() { static const auto T = IDS(E, __VA_ARGS__); return T; }
template<class E> const std::vector<std::pair<std::string, E>>& ids();
NAMED(TABLE)

static void sameName(const std::string& k, const std::string& got, const std::string& id)
{
	expect(got.find(id) != std::string::npos, k + ":name", "the object is named %s, which does not hold %s", got.c_str(), id.c_str());
	expect(got.find("None") == std::string::npos, k + ":name", "the object is named %s", got.c_str());
}

static V bytes(Rng& r, size_t n) { return r.bytes(n); }

void factories()
{
	factory<Digests, DigestConvert, Digest::IDigest>("digest", ids<Digests>(), { Digests::SHAKE128, Digests::SHAKE256, Digests::SHAKE512 }, [](Digests d) { return Helper::DigestFromName::GetInstance(d); },
		[](const std::string& k, Digests d, Digest::IDigest& o, Rng& r)
		{
			expect(o.Enumeral() == d, k + ":identity", "the object says it is %s", DigestConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), DigestConvert::ToName(d));
			expect(Helper::DigestFromName::GetDigestSize(d) == o.DigestSize(), k + ":size", "the helper says %zu, the object %zu", Helper::DigestFromName::GetDigestSize(d), o.DigestSize());
			expect(Helper::DigestFromName::GetBlockSize(d) == o.BlockSize(), k + ":block", "the helper says %zu, the object %zu", Helper::DigestFromName::GetBlockSize(d), o.BlockSize());
			V in = bytes(r, r.below(300)), out(o.DigestSize() + 8, 0x5a), out2;
			o.Update(in, 0, in.size());
			o.Finalize(out, 0);
			for (size_t i = 0; i < 8; ++i) expect(out[o.DigestSize() + i] == 0x5a, k + ":output", "Finalize wrote past the size it reports");
			// its output is that of the instance made for parallel work, used sequentially
			Ptr<Digest::IDigest> p(Helper::DigestFromName::GetInstance(d, true));
			expect(p->Enumeral() == d && p->IsParallel() && !o.IsParallel(), k + ":parallel", "the flag for parallel work is lost");
			expect(p->DigestSize() == o.DigestSize(), k + ":parallel", "sizes differ");
		});
	factory<BlockCiphers, BlockCipherConvert, Cipher::Block::IBlockCipher>("block", ids<BlockCiphers>(), {}, [](BlockCiphers b) { return Helper::BlockCipherFromName::GetInstance(b); },
		[](const std::string& k, BlockCiphers b, Cipher::Block::IBlockCipher& o, Rng& r)
		{
			expect(o.Enumeral() == b, k + ":identity", "the object says it is %s", BlockCipherConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), BlockCipherConvert::ToName(b));
			expect(o.BlockSize() == 16, k + ":block", "block size %zu", o.BlockSize());
			for (auto s : o.LegalKeySizes())
			{
				V kk = bytes(r, s.KeySize()), in = bytes(r, 16), out(16), back(16);
				Cipher::SymmetricKey kp(kk);
				o.Initialize(true, kp); o.Transform(in, 0, out, 0);
				o.Initialize(false, kp); o.Transform(out, 0, back, 0);
				expect(back == in, k + ":legal", "a key of the listed size %zu does not decrypt what it encrypted", (size_t)s.KeySize());
				// every mode made for this cipher says so and takes the listed sizes
				for (auto& m : ids<CipherModes>())
				{
					std::string e; Ptr<Cipher::Block::Mode::ICipherMode> mo;
					Outcome oc = outcome([&] { mo.reset(Helper::CipherModeFromName::GetInstance(b, m.second)); }, &e);
					static const std::set<CipherModes> PLAIN{ CipherModes::CBC, CipherModes::CFB, CipherModes::CTR, CipherModes::ECB, CipherModes::ICM, CipherModes::OFB };
					if (!PLAIN.count(m.second)) { expect(oc == Threw, k + ":mode", "%s is not such a mode, but was made", m.first.c_str()); continue; }
					if (!expect(oc == Returned && mo, k + ":mode", "%s was not made: %s", m.first.c_str(), e.c_str())) continue;
					expect(mo->Enumeral() == m.second && mo->CipherType() == b, k + ":mode", "the object is %s of %s", CipherModeConvert::ToName(mo->Enumeral()).c_str(), BlockCipherConvert::ToName(mo->CipherType()).c_str());
					sameName(k + ":mode", mo->Name(), CipherModeConvert::ToName(m.second)); sameName(k + ":mode", mo->Name(), BlockCipherConvert::ToName(b));
					bool listed = false; for (auto q : mo->LegalKeySizes()) listed |= q.KeySize() == s.KeySize();
					expect(listed, k + ":mode", "%s does not list the key size %zu of its cipher", mo->Name().c_str(), (size_t)s.KeySize());
					// and one made round an engine gives the same
					if (m.second == CipherModes::ECB) continue;
					V iv = bytes(r, 16), msg = bytes(r, 16 * r.range(1, 8)), c1(msg.size()), c2(msg.size());
					Ptr<Cipher::Block::IBlockCipher> en(Helper::BlockCipherFromName::GetInstance(b));
					Ptr<Cipher::Block::Mode::ICipherMode> m2(Helper::CipherModeFromName::GetInstance(en.get(), m.second));
					expect(m2->Enumeral() == m.second && m2->CipherType() == b && m2->Name() == mo->Name(), k + ":mode-engine", "the object is %s", m2->Name().c_str());
					Cipher::SymmetricKey kv(kk, iv);
					mo->Initialize(true, kv); m2->Initialize(true, kv);
					mo->Transform(msg, 0, c1, 0, msg.size()); m2->Transform(msg, 0, c2, 0, msg.size());
					expect(c1 == c2, k + ":mode-engine", "%s: the same key gives another cipher-text round an engine", mo->Name().c_str());
					seen(mo->Name() + strf("%zu", (size_t)s.KeySize()), hash(c1)); count("modes judged");
				}
			}
			for (auto& m : ids<AeadModes>())
			{
				std::string e; Ptr<Cipher::Block::Mode::IAeadMode> mo;
				Outcome oc = outcome([&] { mo.reset(Helper::AeadModeFromName::GetInstance(b, m.second)); }, &e);
				if (m.second == AeadModes::HBA) { expect(oc == Threw, k + ":aead", "HBA without an authenticator was made"); continue; }
				if (!expect(oc == Returned && mo, k + ":aead", "%s was not made: %s", m.first.c_str(), e.c_str())) continue;
				AeadModes self = m.second == AeadModes::GCM ? m.second : AeadModes::HBA;
				expect(mo->Enumeral() == self, k + ":aead", "%s: the object is %s", m.first.c_str(), AeadModeConvert::ToName(mo->Enumeral()).c_str());
				const char* au = m.second == AeadModes::HBAH256 ? "HMACSHA2256" : m.second == AeadModes::HBAH512 ? "HMACSHA2512" : m.second == AeadModes::HBAS256 ? "KMAC256" : m.second == AeadModes::HBAS512 ? "KMAC512" : "";
				sameName(k + ":aead", mo->Name(), AeadModeConvert::ToName(self)); sameName(k + ":aead", mo->Name(), au);
				sameName(k + ":aead", mo->Name(), BlockCipherConvert::ToName(b));
				seen(mo->Name(), 1); count("modes judged");
			}
		});
	factory<Macs, MacConvert, Mac::IMac>("mac", ids<Macs>(), {}, [](Macs m) { return Helper::MacFromName::GetInstance(m); },
		[](const std::string& k, Macs m, Mac::IMac& o, Rng& r)
		{
			// the codes built on a block cipher identify themselves as such and hold the cipher's name
			std::string n = MacConvert::ToName(m), cipher = n.size() > 4 && n.compare(1, 3, "MAC") == 0 && (n[0] == 'C' || n[0] == 'G') ? n.substr(4) : "";
			Macs self = cipher.empty() ? m : n[0] == 'C' ? Macs::CMAC : Macs::GMAC;
			expect(o.Enumeral() == self, k + ":identity", "the object says it is %s", MacConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), MacConvert::ToName(self)); sameName(k, o.Name(), cipher);
			bool sized = m < Macs::KPA128 || m > Macs::KMAC512;   // those fill whatever they are given
			for (auto s : o.LegalKeySizes())
			{
				V key = bytes(r, s.KeySize()), iv = bytes(r, s.IVSize()), in = bytes(r, r.below(200)), out(o.TagSize() + (sized ? 8 : 0), 0x5a);
				std::string e;
				Cipher::SymmetricKey kp = s.IVSize() ? Cipher::SymmetricKey(key, iv) : Cipher::SymmetricKey(key);
				if (!expect(outcome([&] { o.Initialize(kp); }, &e) == Returned, k + ":legal", "the listed sizes %zu/%zu are refused: %s", (size_t)s.KeySize(), (size_t)s.IVSize(), e.c_str())) continue;
				o.Update(in, 0, in.size());
				size_t n = o.Finalize(out, 0);
				expect(n == o.TagSize() && std::count(out.begin() + o.TagSize(), out.end(), 0x5a) == (sized ? 8 : 0), k + ":size", "a tag of %zu bytes, %zu reported", n, o.TagSize());
				seen(k + strf("%zu", (size_t)s.KeySize()), hash(out));
			}
		});
	factory<StreamAuthenticators, StreamAuthenticatorConvert, Mac::IMac>("stream-mac", ids<StreamAuthenticators>(), { StreamAuthenticators::KPA, StreamAuthenticators::KMAC }, [](StreamAuthenticators m) { return Helper::MacFromName::GetInstance(m); },
		[](const std::string& k, StreamAuthenticators m, Mac::IMac& o, Rng&) { expect((unsigned)o.Enumeral() == (unsigned)m, k + ":identity", "the object says it is %s", MacConvert::ToName(o.Enumeral()).c_str()); });
	factory<Kdfs, KdfConvert, Kdf::IKdf>("kdf", ids<Kdfs>(), { Kdfs::HKDS128, Kdfs::HKDS256, Kdfs::HKDS512, Kdfs::SCBKDF1024 }, [](Kdfs m) { return Helper::KdfFromName::GetInstance(m); },
		[](const std::string& k, Kdfs m, Kdf::IKdf& o, Rng& r)
		{
			expect(o.Enumeral() == m, k + ":identity", "the object says it is %s", KdfConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), KdfConvert::ToName(m));
			for (auto s : o.LegalKeySizes())
			{
				std::string e; V key = bytes(r, s.KeySize());
				Cipher::SymmetricKey kp(key);
				expect(outcome([&] { o.Initialize(kp); }, &e) == Returned, k + ":legal", "the listed key size %zu is refused: %s", (size_t)s.KeySize(), e.c_str());
			}
		});
	factory<StreamCiphers, StreamCipherConvert, Cipher::Stream::IStreamCipher>("stream", ids<StreamCiphers>(), {}, [](StreamCiphers m) { return Helper::StreamCipherFromName::GetInstance(m); },
		[](const std::string& k, StreamCiphers m, Cipher::Stream::IStreamCipher& o, Rng& r)
		{
			for (auto s : o.LegalKeySizes())
			{
				V key = bytes(r, s.KeySize()), iv = bytes(r, s.IVSize());
				std::string e; Cipher::SymmetricKey kp(key, iv);
				if (!expect(outcome([&] { o.Initialize(true, kp); }, &e) == Returned, k + ":legal", "the listed sizes %zu/%zu are refused: %s", (size_t)s.KeySize(), (size_t)s.IVSize(), e.c_str())) continue;
				V in = bytes(r, r.range(1, 100)), out(in.size() + o.TagSize() + 8, 0x5a);
				o.Transform(in, 0, out, 0, in.size());
				if (o.IsAuthenticator()) { V t = o.Tag(); expect(t.size() == o.TagSize() && std::equal(t.begin(), t.end(), out.begin() + in.size()), k + ":tag", "a tag of %zu bytes, %zu reported", t.size(), o.TagSize()); }
				expect(o.IsAuthenticator() ? true : o.TagSize() == 0, k + ":tag", "no authentication, but a tag of %zu bytes", o.TagSize());
				seen(k, hash(out));
				// the wide ciphers carry the size of the key in their name
				std::string n = StreamCipherConvert::ToName(m), self = StreamCipherConvert::ToName(o.Enumeral());
				if (n.compare(0, 3, "RCS") == 0 || n.compare(0, 3, "RWS") == 0) n = n.substr(0, 3);
				else expect(o.Enumeral() == m, k + ":identity", "the object says it is %s", self.c_str());
				expect(self.compare(0, n.size(), n) == 0, k + ":identity", "the object says it is %s", self.c_str());
				sameName(k, o.Name(), "");
				expect(!o.Name().empty(), k + ":name", "the object has no name");
			}
		});
	factory<Drbgs, DrbgConvert, Drbg::IDrbg>("drbg", ids<Drbgs>(), {}, [](Drbgs m) { return Helper::DrbgFromName::GetInstance(m); },
		[](const std::string& k, Drbgs m, Drbg::IDrbg& o, Rng&)
		{
			expect(o.Enumeral() == m, k + ":identity", "the object says it is %s", DrbgConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), DrbgConvert::ToName(m));
		});
	factory<PaddingModes, PaddingModeConvert, Cipher::Block::Padding::IPadding>("padding", ids<PaddingModes>(), {}, [](PaddingModes m) { return Helper::PaddingFromName::GetInstance(m); },
		[](const std::string& k, PaddingModes m, Cipher::Block::Padding::IPadding& o, Rng&)
		{
			expect(o.Enumeral() == m, k + ":identity", "the object says it is %s", PaddingModeConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), PaddingModeConvert::ToName(m));
		});
	factory<Providers, ProviderConvert, Provider::IProvider>("provider", ids<Providers>(), {}, [](Providers m) { return Helper::ProviderFromName::GetInstance(m); },
		[](const std::string& k, Providers m, Provider::IProvider& o, Rng&)
		{
			expect(o.Enumeral() == m, k + ":identity", "the object says it is %s", ProviderConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), ProviderConvert::ToName(m));
		});
	factory<Prngs, PrngConvert, Prng::IPrng>("prng", ids<Prngs>(), { Prngs::CSRC1024 }, [](Prngs m) { return Helper::PrngFromName::GetInstance(m, Providers::CSP); },
		[](const std::string& k, Prngs m, Prng::IPrng& o, Rng&)
		{
			// the generators built on a digest hold its name in theirs
			std::string n = PrngConvert::ToName(m);
			Prngs self = n.compare(0, 3, "CSR") == 0 ? Prngs::CSR : n.compare(0, 3, "HCR") == 0 ? Prngs::HCR : m;
			expect(o.Enumeral() == m || o.Enumeral() == self, k + ":identity", "the object says it is %s", PrngConvert::ToName(o.Enumeral()).c_str());
			sameName(k, o.Name(), n.substr(0, 3)); sameName(k, o.Name(), "CSP");
			if (n.size() > 3 && n.find("512") != std::string::npos) sameName(k, o.Name(), "512");
		});
	for (auto& p : ids<AsymmetricParameters>()) run(strf("factory:asymmetric:%s#0", p.first.c_str()), [&](Rng& r)
	{
		// a parameter set belongs to the scheme whose name it carries, and to no other
		std::string n = p.first.substr(p.first.find("::") + 2), k = "factory:asymmetric:" + n;
		auto is = [&](const char* s) { return n.compare(0, std::strlen(s), s) == 0; };
		auto judge = [&](const std::string& scheme, bool belongs, const std::function<std::string()>& make)
		{
			std::string e, name;
			Outcome oc = outcome([&] { name = make(); }, &e);
			if (!belongs) { expect(oc == Threw, k + ":" + scheme, "%s was made with the parameters of another scheme (%s)", scheme.c_str(), name.c_str()); count("parameter sets refused"); }
			else if (expect(oc == Returned, k + ":" + scheme, "nothing was made: %s", e.c_str())) { sameName(k, name, scheme.substr(0, 4)); sameName(k, name, n); count("objects judged"); }
			seen(k + scheme, oc);
		};
		judge("Kyber", is("KYBER"), [&] { return Ptr<Asymmetric::Encrypt::IAsymmetricCipher>(Helper::AsymmetricCipherFromName::GetInstance(AsymmetricCiphers::Kyber, p.second))->Name(); });
		judge("McEliece", is("MPKC"), [&] { return Ptr<Asymmetric::Encrypt::IAsymmetricCipher>(Helper::AsymmetricCipherFromName::GetInstance(AsymmetricCiphers::McEliece, p.second))->Name(); });
		for (auto& g : ids<AsymmetricSigners>())
		{
			const char* own = g.second == AsymmetricSigners::Dilithium ? "DLTM" : g.second == AsymmetricSigners::ECDSA ? "ECDSA" : g.second == AsymmetricSigners::SphincsPlus ? "SPX" : "XMSS";   // one class serves both kinds of tree
			judge(g.first.substr(g.first.find("::") + 2), is(own), [&] { return Ptr<Asymmetric::Sign::IAsymmetricSigner>(Helper::AsymmetricSignerFromName::GetInstance(g.second, p.second))->Name(); });
		}
	});
}

// an error keeps what it was made with, whatever it is caught as
template<class X> static void exceptionCase(const char* n, ExceptionTypes t)
{
	for (size_t i = 0; i < reps(10, 200); ++i) run(strf("exception:%s#%zu", n, i), [=](Rng& r)
	{
		auto text = [&] { Bytes b = r.bytes(r.below(80)); return std::string(b.begin(), b.end()); };
		std::string l = text(), o = text(), m = text(), k = std::string("exception:") + n;
		ErrorCodes c = (ErrorCodes)r.below(256);
		auto kept = [&](Exception::CryptoException& e, const char* as)
		{
			expect(e.Location() == l && e.Origin() == o && e.Message() == m && e.ErrorCode() == c, k + ":kept", "caught as %s: the location, origin, message or code is not what it was made with", as);
		};
		try { throw X(l, o, m, c); }
		catch (X& e)
		{
			kept(e, n);
			expect(e.Enumeral() == t, k + ":identity", "the error says it is %s", ExceptionTypeConvert::ToName(e.Enumeral()).c_str());
			expect(e.Name() == n, k + ":name", "the error is named %s", e.Name().c_str());
		}
		catch (...) { fail(k + ":caught", "not caught as what it is"); }
		try { throw X(l, o, m, c); } catch (Exception::CryptoException& e) { kept(e, "CryptoException"); } catch (...) { fail(k + ":caught", "not caught as a library exception"); }
		try { throw X(l, o, m, c); } catch (std::exception& e) { std::string w = e.what(); (void)w; } catch (...) { fail(k + ":caught", "not caught as a standard exception"); }
		seen(k, hash(l + o + m)); count("errors raised", 3);
	});
}

void cases()
{
	if (part("names")) { NAMED(PAIRS) }
	if (part("factories")) factories();
	if (part("exceptions"))
	{
		exceptionCase<Exception::CryptoAsymmetricException>("CryptoAsymmetricException", ExceptionTypes::CryptoAsymmetricException);
		exceptionCase<Exception::CryptoCipherModeException>("CryptoCipherModeException", ExceptionTypes::CryptoCipherModeException);
		exceptionCase<Exception::CryptoDigestException>("CryptoDigestException", ExceptionTypes::CryptoDigestException);
		exceptionCase<Exception::CryptoException>("CryptoException", ExceptionTypes::CryptoException);
		exceptionCase<Exception::CryptoGeneratorException>("CryptoGeneratorException", ExceptionTypes::CryptoGeneratorException);
		exceptionCase<Exception::CryptoKdfException>("CryptoKdfException", ExceptionTypes::CryptoKdfException);
		exceptionCase<Exception::CryptoKmsException>("CryptoKmsException", ExceptionTypes::CryptoKmsException);
		exceptionCase<Exception::CryptoMacException>("CryptoMacException", ExceptionTypes::CryptoMacException);
		exceptionCase<Exception::CryptoNetworkingException>("CryptoNetworkingException", ExceptionTypes::CryptoNetworkingException);
		exceptionCase<Exception::CryptoPaddingException>("CryptoPaddingException", ExceptionTypes::CryptoPaddingException);
		exceptionCase<Exception::CryptoProcessingException>("CryptoProcessingException", ExceptionTypes::CryptoProcessingException);
		exceptionCase<Exception::CryptoRandomException>("CryptoRandomException", ExceptionTypes::CryptoRandomException);
		exceptionCase<Exception::CryptoSocketException>("CryptoSocketException", ExceptionTypes::CryptoSocketException);
		exceptionCase<Exception::CryptoSymmetricException>("CryptoSymmetricException", ExceptionTypes::CryptoSymmetricException);
		exceptionCase<Exception::CryptoAuthenticationFailure>("CryptoAuthenticationFailure", ExceptionTypes::CryptoAuthenticationFailure);
	}
}
