// What a piece of work leaves behind: heap blocks that nobody owns any more.
#include "jobs.h"
#include "life.h"
#include "verif_rt.h"
#include "PrngFromName.h"
#include "SecureRandom.h"
#include "SymmetricKeyGenerator.h"
#include "AsymmetricCipherFromName.h"
#include "AsymmetricSignerFromName.h"
#include "AsymmetricKeyPair.h"
#include "AsymmetricKey.h"
#include <map>
#include <algorithm>
using namespace vh;
using namespace CEX;

static void leak(Rng& r, const jobs::Job& j)
{
	uint64_t seed = r.next();
	auto go = [&] { Rng q(seed); try { j.f(q); } catch (...) {} };
	go();                                  // whatever is made once and kept
	life::start(); go();
	size_t n, b; std::string at, who = life::stop(&n, &b, &at);
	expect(n == 0, "leak:" + j.name + ":" + who, "%zu blocks, %zu bytes; first from %s", n, b, at.c_str());
	count("heap blocks followed", life::made);
	seen("leak " + j.name, seed);
}
// where each request of a run comes from
static const size_t NOTED = 1 << 16; static uint64_t from[NOTED]; static std::atomic<bool> noting{false};
__attribute__((no_sanitize("address"))) static void note(uint64_t i)
{
	if (i >= NOTED) return;
	const void* pc[life::DEPTH]; life::frames(pc); uint64_t h = 1; for (auto p : pc) h = mix(h ^ (uint64_t)p); from[i] = h;
}
void* operator new(size_t n)
{
	if (life::armed.load() && !life::inside && life::countdown.load() >= 0) { if (noting.load()) note(life::requests.load()); ++life::requests; if (life::countdown.fetch_sub(1) == 0) { ++life::failed; throw std::bad_alloc(); } }
	void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// the n-th request for memory fails
static void starve(Rng& r, const jobs::Job& j)
{
	uint64_t seed = r.next();
	auto go = [&] { Rng q(seed); return j.f(q); };
	uint64_t want = 0; try { want = go(); } catch (...) { return; }
	life::countdown = (int64_t)1 << 60; life::requests = 0; life::start(); noting = true; go(); noting = false; life::armed = false; uint64_t all = life::requests; life::countdown = -1;
	// one request of every origin, so that the rare ones are tried as often as those of the loops
	std::map<uint64_t, std::vector<int64_t>> by; for (uint64_t i = 0; i < all && i < NOTED; ++i) by[from[i]].push_back(i);
	std::vector<int64_t> tries; for (auto& b : by) tries.push_back(r.pick(b.second));
	for (size_t i = tries.size(); i > 1; --i) std::swap(tries[i - 1], tries[r.below(i)]);
	size_t most = j.weight > 100 ? 6 : 40; if (tries.size() > most) tries.resize(most);
	for (int k = 0; k < (j.weight > 100 ? 1 : 4); ++k) tries.push_back(r.below(all + 1));
	count("origins of requests", by.size());
	for (int64_t n : tries)
	{
		life::start(); life::failed = 0; life::countdown = n; std::string how = "returned"; uint64_t got = 0;
		try { got = go(); } catch (std::bad_alloc&) { how = "bad_alloc"; } catch (CEX::Exception::CryptoException&) { how = "CryptoException"; } catch (std::exception& e) { how = "other"; }
		life::countdown = -1;
		size_t nb, b; std::string at, who = life::stop(&nb, &b, &at);
		expect(nb == 0, "starve-leak:" + j.name + ":" + who, "request %lld of %llu failed (%s): %zu blocks, %zu bytes left; first from %s", (long long)n, (unsigned long long)all, how.c_str(), nb, b, at.c_str());
		if (life::failed && how == "returned") expect(got == want || j.name == "prng" , "starve-wrong:" + j.name, "request %lld of %llu failed, the result is another", (long long)n, (unsigned long long)all);
		seen("starve " + j.name, mix(seed) ^ n);
	}
}
// the source of entropy goes away after n requests
struct Dry { const char* name; std::function<void()> f; };
static std::vector<Dry> dries()
{
	using namespace CEX::Enumeration;
	std::vector<Dry> v;
	auto gen = [](Prng::IPrng& g) { Bytes b(40); g.Generate(b); try { g.Reset(); } catch (CEX::Exception::CryptoException&) { } try { g.Generate(b); } catch (CEX::Exception::CryptoException&) { } verif::rt_allow = -1; g.Reset(); g.Generate(b); };
	v.push_back({ "BCR", [gen] { std::unique_ptr<Prng::IPrng> g(Helper::PrngFromName::GetInstance(Prngs::BCR, Providers::CSP)); gen(*g); } });
	v.push_back({ "CSR", [gen] { std::unique_ptr<Prng::IPrng> g(Helper::PrngFromName::GetInstance(Prngs::CSR, Providers::CSP)); gen(*g); } });
	v.push_back({ "HCR", [gen] { std::unique_ptr<Prng::IPrng> g(Helper::PrngFromName::GetInstance(Prngs::HCR, Providers::CSP)); gen(*g); } });
	v.push_back({ "CSR-RDP", [gen] { std::unique_ptr<Prng::IPrng> g(Helper::PrngFromName::GetInstance(Prngs::CSR, Providers::RDP)); gen(*g); } });
	v.push_back({ "SecureRandom", [] { Prng::SecureRandom g(Prngs::BCR, Providers::CSP); g.NextUInt32(); Bytes b(3000); g.Generate(b, 0, b.size()); } });
	v.push_back({ "SymmetricKeyGenerator", [] { Cipher::SymmetricKeyGenerator g(SecurityPolicy::SPL256, Providers::CSP); Cipher::SymmetricKeySize ks(32, 16, 8); std::unique_ptr<Cipher::SymmetricKey> k(g.GetSymmetricKey(ks)); std::unique_ptr<Cipher::SymmetricSecureKey> s(g.GetSecureKey(ks)); } });
	auto cipher = [](AsymmetricCiphers c, AsymmetricParameters p) { return [c, p] {
		std::unique_ptr<Asymmetric::Encrypt::IAsymmetricCipher> a(Helper::AsymmetricCipherFromName::GetInstance(c, p));
		std::unique_ptr<Asymmetric::AsymmetricKeyPair> k(a->Generate());
		a->Initialize(k->PublicKey()); std::vector<uint8_t> c2, s3(32); a->Encapsulate(c2, s3); }; };
	auto signer = [](AsymmetricSigners c, AsymmetricParameters p) { return [c, p] {
		std::unique_ptr<Asymmetric::Sign::IAsymmetricSigner> a(Helper::AsymmetricSignerFromName::GetInstance(c, p));
		std::unique_ptr<Asymmetric::AsymmetricKeyPair> k(a->Generate());
		a->Initialize(k->PrivateKey()); std::vector<uint8_t> m(10), sg; a->Sign(m, sg); }; };
	v.push_back({ "Kyber", cipher(AsymmetricCiphers::Kyber, AsymmetricParameters::KYBERS3P2400) });
	v.push_back({ "Dilithium", signer(AsymmetricSigners::Dilithium, AsymmetricParameters::DLTMS1P2544) });
	v.push_back({ "ECDSA", signer(AsymmetricSigners::ECDSA, AsymmetricParameters::ECDSAS1P25519K) });
	return v;
}
static void dry(Rng& r, const Dry& d)
{
	verif::rt_reset(); verif::rt_det = r.next() | 1;
	try { d.f(); } catch (std::exception& e) { fail("dry:" + std::string(d.name), "threw %s without a fault", e.what()); return; } catch (...) { fail("dry:" + std::string(d.name), "threw without a fault"); return; }
	int64_t need = verif::rt_requests;
	for (int64_t k = 0; k < std::min<int64_t>(need, 40); ++k)
	{
		int64_t n = need <= 40 ? k : (int64_t)r.below(need);
		verif::rt_reset(); verif::rt_det = r.next() | 1; verif::rt_allow = n;
		std::string how = "returned";
		life::start();
		try { d.f(); } catch (CEX::Exception::CryptoException&) { how = "refused"; } catch (...) { how = "other"; }
		size_t nb, b; std::string at, who = life::stop(&nb, &b, &at);
		expect(nb == 0, std::string("dry:") + d.name + ":" + who, "entropy failed after %lld of %lld requests (%s): %zu blocks, %zu bytes left; first from %s", (long long)n, (long long)need, how.c_str(), nb, b, at.c_str());
		expect(how != "other", std::string("dry:") + d.name, "something else than a library exception after %lld of %lld requests", (long long)n, (long long)need);
		seen(std::string("dry ") + d.name, (uint64_t)n); count("entropy failures injected");
	}
	verif::rt_reset();
}
void cases()
{
	if (part("dry")) for (auto& d : dries()) for (size_t i = 0; i < reps(1, 20); ++i) vh::run(strf("dry:%s#%zu", d.name, i), [d](Rng& r) { dry(r, d); });
	static const std::vector<jobs::Job> J = jobs::all(cfg.thorough);
	for (auto& j : J)
	{
		if (part("leak")) for (size_t i = 0; i < reps(j.weight > 100 ? 1 : 20, j.weight > 100 ? 2 : 1000); ++i) vh::run(strf("leak:%s#%zu", j.name.c_str(), i), [&](Rng& r) { leak(r, j); });
		if (part("starve")) for (size_t i = 0; i < reps(j.weight > 100 ? 1 : 10, j.weight > 100 ? 2 : 500); ++i) vh::run(strf("starve:%s#%zu", j.name.c_str(), i), [&](Rng& r) { starve(r, j); });
	}
}
