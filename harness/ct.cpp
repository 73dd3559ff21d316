// Work on secrets takes one path and touches one sequence of addresses, whatever the secrets are.
#include "trace.h"
#include "ref.h"
#include "jobs.h"
#include "IntegerTools.h"
#include "MemoryTools.h"
#include "CMAC.h"
#include "GMAC.h"
#include "HMAC.h"
#include "KMAC.h"
#include "Poly1305.h"
#include "X923.h"
#pragma clang attribute push(__attribute__((no_sanitize("coverage"))), apply_to = function)
extern "C" char __executable_start;
namespace trace
{
	Shared* shared = nullptr;
	static __thread bool armed = false;
	static Run* out = nullptr; static bool comparing = false;
	bool addresses = true;
	uint64_t mark = 0;
	static inline void event(uint32_t kind, const void* pc, uint64_t what)
	{
		uint32_t off = (uint32_t)((char*)pc - &__executable_start);
		Run& s = *out;
		s.hash = (s.hash ^ what ^ kind) * 0x9E3779B97F4A7C15ULL; s.hash ^= s.hash >> 29;
		if (s.n < CAP)
		{
			if (!comparing) { shared->e[s.n] = { off, kind, what }; }
			else if (!s.differs)
			{
				const Event& f = shared->e[s.n];
				if (s.n >= shared->run[0].n || f.kind != kind || f.what != what) { s.differs = true; s.at = s.n; s.a = f; s.b = { off, kind, what }; if (s.n >= shared->run[0].n) s.a = { 0, 9, 0 }; }
			}
		}
		if (++s.n == mark) s.marked = s.hash;
	}
	Watch::Watch() { armed = true; }
	Watch::~Watch() { armed = false; }
	void runs(int n, const std::function<Out(int)>& f)
	{
		if (!shared) shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		memset(shared->run, 0, sizeof shared->run);
		fflush(stdout); fflush(stderr);
		// nothing changes in the process in between from which the runs are made
		pid_t base = fork();
		if (base == 0)
		{
			for (volatile int i = 0; i < n; i = i + 1)
			{
				pid_t p = fork();
				if (p == 0)
				{
					out = &shared->run[i]; comparing = i != 0;
					try { Out o = f(i); out->outcome = o.outcome; out->result = o.result; out->ended = true; }
					catch (CEX::Exception::CryptoException& e) { armed = false; fprintf(stderr, "ct child: %s\n", e.Message().c_str()); }
					catch (...) { armed = false; }
					_exit(0);
				}
				int st; while (waitpid(p, &st, 0) < 0) { }
			}
			_exit(0);
		}
		int st; while (waitpid(base, &st, 0) < 0) { }
	}
	std::string where(uint32_t pc)
	{
		char exe[600]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return "?"; exe[n] = 0;
		std::string c = vh::strf("llvm-symbolizer --obj=%s --relative-address 0x%x 2>/dev/null || llvm-symbolizer-18 --obj=%s --relative-address 0x%x 2>/dev/null || addr2line -Cife %s 0x%x", exe, pc - 1, exe, pc - 1, exe, pc - 1), r;
		FILE* f = popen(c.c_str(), "r"); char b[2000];
		while (f && fgets(b, sizeof b, f)) { std::string t = b; while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); r += (r.empty() ? "" : " | ") + t.substr(0, 160); }
		if (f) pclose(f);
		return r;
	}
}
using trace::event;
extern "C"
{
	void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { static uint32_t n = 0; if (a == b || *a) return; for (; a < b; ++a) *a = ++n; }
	void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (trace::armed) event(0, __builtin_return_address(0), *g); }
#define ACCESS(N) void __sanitizer_cov_load##N(void* p) { if (trace::armed) event(1, __builtin_return_address(0), trace::addresses ? (uint64_t)p : 0); } void __sanitizer_cov_store##N(void* p) { if (trace::armed) event(1, __builtin_return_address(0), trace::addresses ? (uint64_t)p : 0); }
	ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
	// comparisons by the C library stop at the first difference
	int memcmp(const void* a, const void* b, size_t n)
	{
		const volatile uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b; size_t i = 0;
		while (i < n && x[i] == y[i]) ++i;
		if (trace::armed) event(2, __builtin_return_address(0), i);
		return i == n ? 0 : x[i] < y[i] ? -1 : 1;
	}
	int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
}
#pragma clang attribute pop
using namespace vh;
using namespace jobs;
using trace::Watch;
using trace::Out;
typedef std::vector<uint8_t> V;

// f(public randomness, secret randomness, number of the secret)
typedef std::function<Out(Rng&, Rng&, int)> Work;
// tables: the work looks secrets up in tables, on purpose; only its control flow is judged
static void same(Rng& r, const std::string& name, int secrets, const Work& f, bool differ = true, bool tables = false)
{
	trace::addresses = !tables;
	uint64_t pub = r.next(), sec = r.next();
	std::string k = "path:" + name;
	trace::runs(secrets, [&](int i) { Rng p(pub), s(sec + (uint64_t)i * 0x1234567); return f(p, s, i); });
	const trace::Run& a = trace::shared->run[0];
	if (!a.ended) { fail(k + ":ended", "the work did not end"); return; }
	expect(a.n > 0, k + ":empty", "nothing was recorded");
	std::set<uint64_t> results{ a.result };
	for (int i = 1; i < secrets; ++i)
	{
		const trace::Run& b = trace::shared->run[i];
		if (!b.ended) { fail(k + ":ended", "the work did not end"); return; }
		results.insert(b.result);
		if (a.outcome != b.outcome) { fail(k + ":outcome", "what may be known differs: %llx, %llx", (unsigned long long)a.outcome, (unsigned long long)b.outcome); continue; }
		bool d = b.differs || a.n != b.n || a.hash != b.hash;
		std::string at;
		if (d)
		{
			static const char* KIND[] = { "a branch", "an address", "a comparison" };
			if (!b.differs) at = strf("after %llu events", (unsigned long long)std::min(a.n, b.n));
			else at = strf("event %llu: %s at %s; the other run: %s", (unsigned long long)b.at, KIND[b.b.kind], trace::where(b.b.pc).c_str(), b.a.kind == 9 ? "had ended" : trace::where(b.a.pc).c_str());
		}
		expect(!d, k, "another secret, another path (%llu and %llu events): %s", (unsigned long long)a.n, (unsigned long long)b.n, at.c_str());
		seen(k, mix(b.hash) ^ b.result); count("events compared", b.n);
	}
	if (differ) expect(results.size() > 1, k + ":same", "the secrets make no difference");
}
// Whether a key was agreed on shows in the end, but nothing before: f(0) is refused, f(1) is not, and they
// part only where the refused one returns.
static void decided(Rng& r, const std::string& name, const std::function<Out(int)>& f, uint64_t tail)
{
	trace::addresses = true;
	std::string k = "path:" + name;
	trace::mark = 0; trace::runs(1, f);
	uint64_t n = trace::shared->run[0].n;
	trace::mark = n > tail ? n - tail : 1; trace::runs(2, f); trace::mark = 0;
	const trace::Run &a = trace::shared->run[0], &b = trace::shared->run[1];
	if (!a.ended || !b.ended) { fail(k + ":ended", "the work did not end"); return; }
	expect(a.outcome != b.outcome && a.n == n && n > tail, k + ":same", "both were %s", a.outcome ? "accepted" : "refused");
	expect(a.marked == b.marked, k, "the refusal shows before it is returned: %s", b.differs ? trace::where(b.b.pc).c_str() : "after the part that is kept");
	seen(k, mix(b.hash) ^ a.hash); count("events compared", a.n);
}
static Out none(uint64_t result) { return { 0, result }; }

static void primitives()
{
	const std::vector<BlockCiphers> bc = { BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXH256, BlockCiphers::RHXH512, BlockCiphers::RHXS256, BlockCiphers::RHXS512, BlockCiphers::SHXH256, BlockCiphers::SHXH512, BlockCiphers::SHXS256, BlockCiphers::SHXS512 };
	const std::vector<CipherModes> ms = { CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM };
	for (auto b : bc) for (auto m : ms) for (size_t i = 0; i < reps(1, 4); ++i)
		run(strf("mode:%s-%s#%zu", BlockCipherConvert::ToName(b).c_str(), CipherModeConvert::ToName(m).c_str(), i), [=](Rng& r)
		{
			bool enc = r.chance(50);
			same(r, "mode:" + BlockCipherConvert::ToName(b) + "-" + CipherModeConvert::ToName(m), 3, [=](Rng& p, Rng& s, int)
			{
				std::unique_ptr<Cipher::Block::Mode::ICipherMode> c(Helper::CipherModeFromName::GetInstance(b, m));
				if (m != CipherModes::OFB) c->ParallelProfile().IsParallel() = false;
				auto ks = p.pick(c->LegalKeySizes());
				SymmetricKey k(s.bytes(ks.KeySize()), m == CipherModes::ECB ? V() : p.bytes(16));
				size_t n = 16 * p.range(1, 40); V in = s.bytes(n), o(n);
				{ Watch w; c->Initialize(enc, k); c->Transform(in, 0, o, 0, n); }
				return none(h(o));
			});
		});
	for (unsigned e = 1; e < 60; ++e)
	{
		std::unique_ptr<Digest::IDigest> t; std::string x;
		if (outcome([&] { t.reset(Helper::DigestFromName::GetInstance((Digests)e)); }, &x) == Returned) for (size_t i = 0; i < reps(2, 10); ++i)
			run(strf("digest:%s#%zu", t->Name().c_str(), i), [=](Rng& r) { std::string n; { std::unique_ptr<Digest::IDigest> d(Helper::DigestFromName::GetInstance((Digests)e)); n = d->Name(); } same(r, "digest:" + n, 3, [=](Rng& p, Rng& s, int) {
				std::unique_ptr<Digest::IDigest> d(Helper::DigestFromName::GetInstance((Digests)e)); V m = s.bytes(p.range(0, 600)), o(d->DigestSize());
				{ Watch w; d->Update(m, 0, m.size()); d->Finalize(o, 0); } return none(h(o)); }, false); });
	}
	for (auto m : std::vector<Macs>{ Macs::CMAC, Macs::CMACRHXH256, Macs::CMACRHXH512, Macs::CMACRHXS256, Macs::CMACRHXS512, Macs::GMAC, Macs::GMACRHXH256, Macs::GMACRHXS512, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KPA128, Macs::KPA256, Macs::KPA512, Macs::KMAC128, Macs::KMAC256, Macs::KMAC512, Macs::Poly1305 }) for (size_t i = 0; i < reps(2, 10); ++i)
		run(strf("mac:%s#%zu", MacConvert::ToName(m).c_str(), i), [=](Rng& r) { same(r, "mac:" + MacConvert::ToName(m), 3, [=](Rng& p, Rng& s, int i) {
			std::unique_ptr<Mac::IMac> c(Helper::MacFromName::GetInstance(m)); auto ks = p.pick(c->LegalKeySizes());
			V key = s.bytes(ks.KeySize()), iv = p.bytes(ks.IVSize()), msg = s.bytes(p.range(1, 600)), o(c->TagSize());
			if (m == Macs::Poly1305 && i == 2) { std::fill(key.begin(), key.end(), 0xff); std::fill(msg.begin(), msg.end(), 0xff); }
			SymmetricKey k(key, iv);
			{ Watch w; c->Initialize(k); c->Update(msg, 0, msg.size()); c->Finalize(o, 0); } return none(h(o)); }); });
	typedef std::unique_ptr<Cipher::Block::Mode::IAeadMode> Aead;
	for (auto b : std::vector<BlockCiphers>{ BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXH512 }) for (auto m : std::vector<AeadModes>{ AeadModes::GCM, AeadModes::HBAH256, AeadModes::HBAH512, AeadModes::HBAS256, AeadModes::HBAS512 }) for (size_t i = 0; i < reps(1, 6); ++i)
		run(strf("aead:%s-%s#%zu", BlockCipherConvert::ToName(b).c_str(), AeadModeConvert::ToName(m).c_str(), i), [=](Rng& r) { same(r, "aead:" + BlockCipherConvert::ToName(b) + "-" + AeadModeConvert::ToName(m), 3, [=](Rng& p, Rng& s, int) {
			Aead c(Helper::AeadModeFromName::GetInstance(b, m)), d(Helper::AeadModeFromName::GetInstance(b, m));
			c->ParallelProfile().IsParallel() = false; d->ParallelProfile().IsParallel() = false;
			V a = p.bytes(p.range(1, 40)), in = s.bytes(p.range(1, 600)), x(in.size() + 200), o(in.size()); auto ks = p.pick(c->LegalKeySizes()); SymmetricKey k(s.bytes(ks.KeySize()), p.bytes(m == AeadModes::GCM ? 12 : 16));      // 12: the counter starts at a public value
			{ Watch w; c->Initialize(true, k); c->SetAssociatedData(a, 0, a.size()); c->Transform(in, 0, x, 0, in.size()); d->Initialize(false, k); d->SetAssociatedData(a, 0, a.size()); d->Transform(x, 0, o, 0, in.size()); } return Out{ o == in, h(x) }; }); });
	for (auto e : std::vector<StreamCiphers>{ StreamCiphers::ChaChaP20, StreamCiphers::CSXR20K256, StreamCiphers::CSX512, StreamCiphers::CSXR80K512, StreamCiphers::RCS, StreamCiphers::RCSK256, StreamCiphers::RCSK512, StreamCiphers::RWS, StreamCiphers::RWSK256, StreamCiphers::RWSK512, StreamCiphers::TSX256, StreamCiphers::TSXR72K256, StreamCiphers::TSX512, StreamCiphers::TSXR96K512, StreamCiphers::TSX1024, StreamCiphers::TSXR120K512 })
	{
		std::string n = StreamCipherConvert::ToName(e);
		for (size_t i = 0; i < reps(2, 10); ++i) run(strf("stream:%s#%zu", n.c_str(), i), [=](Rng& r) { same(r, "stream:" + n, 3, [=](Rng& p, Rng& s, int) {
			std::unique_ptr<Cipher::Stream::IStreamCipher> c(Helper::StreamCipherFromName::GetInstance(e)); c->ParallelProfile().IsParallel() = false; auto ks = p.pick(c->LegalKeySizes());
			V key = s.bytes(ks.KeySize()), iv = p.bytes(ks.IVSize()), msg = s.bytes(p.range(1, 600)), o(msg.size() + 128); SymmetricKey k(key, iv);
			{ Watch w; c->Initialize(true, k); c->Transform(msg, 0, o, 0, msg.size()); } return none(h(o)); }, true, n.compare(0, 3, "RWS") == 0); });
	}
	for (auto m : std::vector<Kdfs>{ Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::KDF2256, Kdfs::KDF2512, Kdfs::PBKDF2256, Kdfs::PBKDF2512, Kdfs::SHAKE128, Kdfs::SHAKE256, Kdfs::SHAKE512, Kdfs::SCBKDF128, Kdfs::SCBKDF256, Kdfs::SCBKDF512 }) for (size_t i = 0; i < reps(2, 10); ++i)
		run(strf("kdf:%s#%zu", KdfConvert::ToName(m).c_str(), i), [=](Rng& r) { same(r, "kdf:" + KdfConvert::ToName(m), 3, [=](Rng& p, Rng& s, int) {
			std::unique_ptr<Kdf::IKdf> c(Helper::KdfFromName::GetInstance(m)); V key = s.bytes(p.range(16, 100)), iv = p.bytes(32), o(p.range(1, 300)); SymmetricKey k(key, iv);
			{ Watch w; c->Initialize(k); c->Generate(o); } return none(h(o)); }); });
	for (auto m : std::vector<Drbgs>{ Drbgs::BCG, Drbgs::CSG, Drbgs::HCG }) for (size_t i = 0; i < reps(2, 10); ++i)
		run(strf("drbg:%s#%zu", DrbgConvert::ToName(m).c_str(), i), [=](Rng& r) { same(r, "drbg:" + DrbgConvert::ToName(m), 3, [=](Rng& p, Rng& s, int) {
			std::unique_ptr<Drbg::IDrbg> c(Helper::DrbgFromName::GetInstance(m, m == Drbgs::CSG ? Digests::SHAKE256 : Digests::SHA2512, Providers::None)); auto ks = p.pick(c->LegalKeySizes());
			V key = s.bytes(ks.KeySize()), iv = m == Drbgs::BCG ? p.bytes(ks.IVSize()) : s.bytes(ks.IVSize()), o(p.range(1, 2000)); SymmetricKey k(key, iv);
			{ Watch w; c->Initialize(k); c->Generate(o); } return none(h(o)); }, true, m == Drbgs::BCG); });
}


// ways of forging n bytes at the end of v
static void forge(V& v, size_t n, Rng& s, int i)
{
	size_t at = v.size() - n;
	V x = s.bytes(v.size());      // for all: what has been allocated does not depend on i
	switch (i)
	{
		case 0: v[at] ^= (uint8_t)(1 << s.below(8)); break;
		case 1: v.back() ^= (uint8_t)(1 << s.below(8)); break;
		case 2: v[at + s.below(n)] ^= (uint8_t)s.range(1, 255); break;
		case 3: for (size_t j = at; j < v.size(); ++j) v[j] ^= 0xff; break;
		default: if (std::equal(x.begin(), x.begin() + n, v.begin() + at)) x[0] ^= 1; std::copy(x.begin(), x.begin() + n, v.begin() + at);
	}
}
// the refusal of a forged code does not show where it is wrong
static void forgeries()
{
	typedef std::unique_ptr<Cipher::Block::Mode::IAeadMode> Aead;
	for (auto b : std::vector<BlockCiphers>{ BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXS256 }) for (auto m : std::vector<AeadModes>{ AeadModes::GCM, AeadModes::HBAH256, AeadModes::HBAH512, AeadModes::HBAS256, AeadModes::HBAS512 }) for (size_t i = 0; i < reps(2, 20); ++i)
		run(strf("forged:%s-%s#%zu", BlockCipherConvert::ToName(b).c_str(), AeadModeConvert::ToName(m).c_str(), i), [=](Rng& r) { same(r, "forged:" + BlockCipherConvert::ToName(b) + "-" + AeadModeConvert::ToName(m), 6, [=](Rng& p, Rng& s, int i) {
			Aead e(Helper::AeadModeFromName::GetInstance(b, m)), d(Helper::AeadModeFromName::GetInstance(b, m));
			e->ParallelProfile().IsParallel() = false; d->ParallelProfile().IsParallel() = false;
			SymmetricKey k(p.bytes(32), p.bytes(16)); V a = p.bytes(p.range(1, 40)), in = p.bytes(p.range(1, 300));
			e->Initialize(true, k); size_t t = e->TagSize(); V c(in.size() + t), o(in.size()); e->SetAssociatedData(a, 0, a.size()); e->Transform(in, 0, c, 0, in.size());
			forge(c, p.chance(30) ? c.size() : t, s, i);
			d->Initialize(false, k); d->SetAssociatedData(a, 0, a.size());
			bool refused = false;
			try { Watch w; d->Transform(c, 0, o, 0, in.size()); } catch (CEX::Exception::CryptoAuthenticationFailure&) { refused = true; }
			return Out{ refused, h(c) }; }); });
	for (auto e : std::vector<StreamCiphers>{ StreamCiphers::CSXR20K256, StreamCiphers::CSXR80K512, StreamCiphers::RCSK256, StreamCiphers::RCSK512, StreamCiphers::RWSK256, StreamCiphers::RWSK512, StreamCiphers::TSXR72K256, StreamCiphers::TSXR96K512, StreamCiphers::TSXR120K512 }) for (size_t i = 0; i < reps(2, 20); ++i)
		run(strf("forged:%s#%zu", StreamCipherConvert::ToName(e).c_str(), i), [=](Rng& r) { same(r, "forged:" + StreamCipherConvert::ToName(e), 6, [=](Rng& p, Rng& s, int i) {
			std::unique_ptr<Cipher::Stream::IStreamCipher> c(Helper::StreamCipherFromName::GetInstance(e)), d(Helper::StreamCipherFromName::GetInstance(e));
			c->ParallelProfile().IsParallel() = false; d->ParallelProfile().IsParallel() = false;
			auto ks = p.pick(c->LegalKeySizes()); SymmetricKey k(p.bytes(ks.KeySize()), p.bytes(ks.IVSize())); V a = p.bytes(p.range(1, 40)), in = p.bytes(p.range(1, 300));
			c->Initialize(true, k); size_t t = c->TagSize(); V x(in.size() + t), o(in.size()); c->SetAssociatedData(a, 0, a.size()); c->Transform(in, 0, x, 0, in.size());
			forge(x, p.chance(30) ? x.size() : t, s, i);
			d->Initialize(false, k); d->SetAssociatedData(a, 0, a.size());
			bool refused = false;
			try { Watch w; d->Transform(x, 0, o, 0, in.size()); } catch (CEX::Exception::CryptoAuthenticationFailure&) { refused = true; }
			return Out{ refused, h(x) }; }); });
	for (auto m : std::vector<PaddingModes>{ PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne }) for (size_t i = 0; i < reps(6, 60); ++i)
		run(strf("padding:%s#%zu", PaddingModeConvert::ToName(m).c_str(), i), [=](Rng& r) { bool part = r.chance(50); same(r, "padding:" + PaddingModeConvert::ToName(m), 8, [=](Rng& p, Rng& s, int i) {
			std::unique_ptr<Cipher::Block::Padding::IPadding> d(Helper::PaddingFromName::GetInstance(m));
			size_t n = p.range(2, 64), off = part ? p.below(n) : 0; V v = s.bytes(n);
			V u = v; size_t from = off + s.below(n - off); d->AddPadding(u, from, n);
			if (i < 6) std::copy(u.begin(), u.end(), v.begin());
			if (i == 3 || i == 4) v[off + s.below(n - off)] ^= (uint8_t)s.range(1, 255);
			size_t got;
			{ Watch w; got = part ? d->GetBlockLength(v, off, n) : d->GetBlockLength(v); }
			return none(got ^ h(v)); }); });
}
// operations the library offers for secrets
static volatile uint64_t sink;
static void helpers()
{
	using namespace CEX::Tools;
	typedef std::function<uint64_t(const V&, const V&, V&, uint64_t, uint64_t)> Op;
	std::vector<std::pair<const char*, Op>> ops;
#define SCALAR(N, E) ops.push_back({ N "<8>", [](const V&, const V&, V&, uint64_t a, uint64_t b) { typedef uint8_t T; T x = (T)a, y = (T)b; return (uint64_t)(E); } }); ops.push_back({ N "<16>", [](const V&, const V&, V&, uint64_t a, uint64_t b) { typedef uint16_t T; T x = (T)a, y = (T)b; return (uint64_t)(E); } }); \
	ops.push_back({ N "<32>", [](const V&, const V&, V&, uint64_t a, uint64_t b) { typedef uint32_t T; T x = (T)a, y = (T)b; return (uint64_t)(E); } }); ops.push_back({ N "<64>", [](const V&, const V&, V&, uint64_t a, uint64_t b) { typedef uint64_t T; T x = (T)a, y = (T)b; return (uint64_t)(E); } });
	SCALAR("CMax", IntegerTools::CMax<T>(x, y)) SCALAR("CMin", IntegerTools::CMin<T>(x, y)) SCALAR("ExpandMask", IntegerTools::ExpandMask<T>(x)) SCALAR("ExpandTopBit", IntegerTools::ExpandTopBit<T>(x)) SCALAR("IsEqual", IntegerTools::IsEqual<T>(x, y))
	SCALAR("IsLess", IntegerTools::IsLess<T>(x, y)) SCALAR("IsLte", IntegerTools::IsLte<T>(x, y)) SCALAR("IsZero", IntegerTools::IsZero<T>(x)) SCALAR("Select", IntegerTools::Select<T>(x, y, (T)~y)) SCALAR("ValueOrZero", (IntegerTools::ValueOrZero<T, T>(x, y)))
	ops.push_back({ "Compare", [](const V& a, const V& b, V&, uint64_t, uint64_t) { return (uint64_t)IntegerTools::Compare(a, 0, b, 0, a.size()); } });
	ops.push_back({ "CompareMemory", [](const V& a, const V& b, V&, uint64_t, uint64_t) { return (uint64_t)MemoryTools::Compare(a, 0, b, 0, a.size()); } });
	ops.push_back({ "Verify", [](const V& a, const V& b, V&, uint64_t, uint64_t) { return (uint64_t)IntegerTools::Verify(a, b, a.size()); } });
	ops.push_back({ "VerifyRange", [](const V& a, const V& b, V&, uint64_t, uint64_t) { return (uint64_t)IntegerTools::Verify(a, 0, b, 0, a.size()); } });
	ops.push_back({ "VerifyRaw", [](const V& a, const V& b, V&, uint64_t, uint64_t) { return (uint64_t)IntegerTools::VerifyRaw(a.data(), b.data(), a.size()); } });
	ops.push_back({ "DiffMask", [](const V& a, const V& b, V&, uint64_t, uint64_t) { return (uint64_t)IntegerTools::DiffMask(a, b, a.size()); } });
	ops.push_back({ "CMov", [](const V& a, const V&, V& o, uint64_t x, uint64_t) { IntegerTools::CMov(a, 0, o, 0, a.size(), (uint8_t)(x & 1)); return (uint64_t)0; } });
	ops.push_back({ "CMovRaw", [](const V& a, const V&, V& o, uint64_t x, uint64_t) { IntegerTools::CMovRaw(a.data(), o.data(), a.size(), (uint8_t)(x & 1)); return (uint64_t)0; } });
	ops.push_back({ "ConditionalCopy", [](const V& a, const V& b, V& o, uint64_t x, uint64_t) { IntegerTools::ConditionalCopy<uint8_t>((uint8_t)(x & 1 ? 0 : x), o.data(), a.data(), b.data(), a.size()); return (uint64_t)0; } });
	ops.push_back({ "ConditionalZeroMem", [](const V& a, const V&, V& o, uint64_t x, uint64_t) { IntegerTools::ConditionalZeroMem<uint8_t>((uint8_t)(x & 1 ? 0 : x), o, a.size()); return (uint64_t)0; } });
	ops.push_back({ "ShiftLeft", [](const V& a, const V&, V& o, uint64_t, uint64_t) { return (uint64_t)IntegerTools::ShiftLeft(a, o); } });
	static const auto OPS = ops;
	for (auto& op : OPS) for (size_t i = 0; i < reps(4, 40); ++i)
		run(strf("helper:%s#%zu", op.first, i), [&op](Rng& r) { same(r, std::string("helper:") + op.first, 8, [&op](Rng& p, Rng& s, int i) {
			size_t n = p.chance(50) ? p.range(1, 40) : p.range(1, 300); V a = s.bytes(n), b = a, o = s.bytes(n), c = s.bytes(n);
			// equal, or different at one end, somewhere, or everywhere
			switch (i) { case 0: break; case 1: b[0] ^= 1; break; case 2: b.back() ^= 0x80; break; case 3: b[s.below(n)] ^= (uint8_t)s.range(1, 255); break; case 4: std::fill(a.begin(), a.end(), 0); break; default: std::copy(c.begin(), c.end(), b.begin()); }
			uint64_t x = s.chance(20) ? 0 : s.chance(20) ? ~0ULL : s.next() >> s.below(64), y = s.chance(20) ? x : s.chance(20) ? 0 : s.next() >> s.below(64), v;
			{ Watch w; v = op.second(a, b, o, x, y); }
			sink = v; return none(v ^ h(o)); }); });
}
// private keys, and what was encapsulated for them
typedef std::unique_ptr<Asymmetric::AsymmetricKeyPair> Pair;
static V bytesOf(Asymmetric::AsymmetricKey* k) { auto x = k->Polynomial(); return V(x.begin(), x.end()); }
static void keys()
{
	using Asymmetric::AsymmetricKey;
	for (auto e : std::vector<ECDHParameters>{ ECDHParameters::ECDHS1P25519K, ECDHParameters::ECDHS2P25519S }) for (size_t i = 0; i < reps(4, 40); ++i)
		run(strf("ecdh:%u#%zu", (unsigned)e, i), [=](Rng& r) {
			uint64_t own = r.next();
			same(r, strf("ecdh-generate:%u", (unsigned)e), 4, [=](Rng& p, Rng& s, int) { Known g(p.next()); Asymmetric::Encrypt::ECDH::ECDH x(e, &g); std::vector<uint8_t> seed = s.bytes(32); Pair k; { Watch w; k.reset(x.Generate(seed)); } return none(h(bytesOf(k->PublicKey()))); });
			std::vector<V> prv; V pub;
			{ Known g(own); Asymmetric::Encrypt::ECDH::ECDH x(e, &g); for (int j = 0; j < 4; ++j) { Pair k(x.Generate()); prv.push_back(bytesOf(k->PrivateKey())); pub = bytesOf(k->PublicKey()); } Pair k(x.Generate()); pub = bytesOf(k->PublicKey()); }
			same(r, strf("ecdh-exchange:%u", (unsigned)e), 4, [=](Rng& p, Rng&, int i) {
				Known g(p.next()); Asymmetric::Encrypt::ECDH::ECDH x(e, &g);
				AsymmetricKey a(std::vector<uint8_t>(pub), AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, (AsymmetricParameters)e), b(std::vector<uint8_t>(prv[i]), AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)e);
				std::vector<uint8_t> s(32); { Watch w; x.KeyExchange(&a, &b, s); } return none(h(s)); });
		});
	for (auto e : std::vector<ECDSAParameters>{ ECDSAParameters::ECDSAS1P25519K, ECDSAParameters::ECDSAS2P25519S }) for (size_t i = 0; i < reps(4, 40); ++i)
		run(strf("ecdsa:%u#%zu", (unsigned)e, i), [=](Rng& r) {
			uint64_t own = r.next();
			same(r, strf("ecdsa-generate:%u", (unsigned)e), 4, [=](Rng& p, Rng& s, int) { Known g(p.next()); Asymmetric::Sign::ECDSA::ECDSA x(e, &g); std::vector<uint8_t> seed = s.bytes(32); Pair k; { Watch w; k.reset(x.Generate(seed)); } return none(h(bytesOf(k->PublicKey()))); });
			std::vector<V> prv;
			{ Known g(own); Asymmetric::Sign::ECDSA::ECDSA x(e, &g); for (int j = 0; j < 4; ++j) { Pair k(x.Generate()); prv.push_back(bytesOf(k->PrivateKey())); } }
			same(r, strf("ecdsa-sign:%u", (unsigned)e), 4, [=](Rng& p, Rng&, int i) {
				Known g(p.next()); Asymmetric::Sign::ECDSA::ECDSA x(e, &g);
				AsymmetricKey b(std::vector<uint8_t>(prv[i]), AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, (AsymmetricParameters)e);
				std::vector<uint8_t> m = p.bytes(p.range(1, 200)), s; x.Initialize(&b); { Watch w; x.Sign(m, s); } return none(h(s)); });
		});
	for (auto e : std::vector<KyberParameters>{ KyberParameters::KYBERS1P1632, KyberParameters::KYBERS3P2400, KyberParameters::KYBERS5P3168, KyberParameters::KYBERS6P3936 }) for (size_t i = 0; i < reps(2, 20); ++i)
		run(strf("kyber:%u#%zu", (unsigned)e, i), [=](Rng& r) {
			std::vector<V> prv; V pub, ct;
			{ Known g(r.next()); Asymmetric::Encrypt::MLWE::Kyber x(e, &g); for (int j = 0; j < 4; ++j) { Pair k(x.Generate()); prv.push_back(bytesOf(k->PrivateKey())); if (j == 0) { pub = bytesOf(k->PublicKey()); std::vector<uint8_t> c, s(32); x.Initialize(k->PublicKey()); x.Encapsulate(c, s); ct = c; } } }
			same(r, strf("kyber-encapsulate:%u", (unsigned)e), 4, [=](Rng&, Rng& s, int) {
				Known g(s.next()); Asymmetric::Encrypt::MLWE::Kyber x(e, &g); AsymmetricKey a(std::vector<uint8_t>(pub), AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, (AsymmetricParameters)e);
				std::vector<uint8_t> c, ss(32); x.Initialize(&a); { Watch w; x.Encapsulate(c, ss); } return none(h(c)); });
			// invalid cipher-texts: where they are wrong does not show
			same(r, strf("kyber-decapsulate:%u", (unsigned)e), 6, [=](Rng&, Rng& s, int i) {
				Known g(1); Asymmetric::Encrypt::MLWE::Kyber x(e, &g); AsymmetricKey b(std::vector<uint8_t>(prv[0]), AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)e);
				V v = ct; forge(v, i == 2 ? 32 : v.size(), s, i); std::vector<uint8_t> c(v), ss(32); x.Initialize(&b); bool ok; { Watch w; ok = x.Decapsulate(c, ss); } return Out{ ok, h(v) }; });
			size_t bad = r.below(ct.size()); uint8_t with = (uint8_t)r.range(1, 255);
			decided(r, strf("kyber-refused:%u", (unsigned)e), [=](int i) {
				Known g(1); Asymmetric::Encrypt::MLWE::Kyber x(e, &g); AsymmetricKey b(std::vector<uint8_t>(prv[0]), AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)e);
				std::vector<uint8_t> c(ct), ss(32); c[bad] ^= i == 0 ? with : 0; x.Initialize(&b); bool ok; { Watch w; ok = x.Decapsulate(c, ss); } return Out{ ok, 0 }; }, 100);
			// another secret vector and rejection seed beside the same public part
			same(r, strf("kyber-key:%u", (unsigned)e), 4, [=](Rng&, Rng&, int i) {
				size_t own = (pub.size() - 32);      // packed vectors of either kind have one size
				V k = prv[0]; std::copy(prv[i].begin(), prv[i].begin() + own, k.begin()); std::copy(prv[i].end() - 32, prv[i].end(), k.end() - 32);
				V v = ct; v[0] ^= 1; v[v.size() / 2] ^= 2;
				Known g(1); Asymmetric::Encrypt::MLWE::Kyber x(e, &g); AsymmetricKey b(std::vector<uint8_t>(k), AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)e);
				std::vector<uint8_t> c(v), ss(32); x.Initialize(&b); bool ok; { Watch w; ok = x.Decapsulate(c, ss); } return Out{ ok, h(k) }; });
		});
	run("mceliece#0", [=](Rng& r) {
		auto e = McElieceParameters::MPKCS3N4608T96;
		std::vector<V> prv; V ct;
		{ Known g(r.next()); Asymmetric::Encrypt::MPKC::McEliece x(e, &g); for (int j = 0; j < (cfg.thorough ? 3 : 2); ++j) { Pair k(x.Generate()); prv.push_back(bytesOf(k->PrivateKey())); if (j == 0) { std::vector<uint8_t> c, s(32); x.Initialize(k->PublicKey()); x.Encapsulate(c, s); ct = c; } } }
		auto go = [=](const V& key, const V& cipher) {
			Known g(1); Asymmetric::Encrypt::MPKC::McEliece x(e, &g); AsymmetricKey b(std::vector<uint8_t>(key), AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPrivateKey, (AsymmetricParameters)e);
			std::vector<uint8_t> c(cipher), ss(32); x.Initialize(&b); bool ok; { Watch w; ok = x.Decapsulate(c, ss); } return Out{ ok, h(key) ^ h(cipher) }; };
		same(r, "mceliece-decapsulate", 5, [=](Rng&, Rng& s, int i) { V v = ct; forge(v, i == 2 ? 32 : v.size(), s, i); return go(prv[0], v); });
		decided(r, "mceliece-refused", [=](int i) { V v = ct; if (i == 0) v[v.size() / 2] ^= 4; return go(prv[0], v); }, 100);
		same(r, "mceliece-key", (int)prv.size(), [=](Rng&, Rng&, int i) { V v = ct; v[3] ^= 9; return go(prv[i], v); });
	});
}

void cases()
{
	if (part("forgeries")) forgeries();
	if (part("helpers")) helpers();
	if (part("keys")) keys();
	if (part("primitives")) primitives();
}
