// Stream ciphers and AEAD modes against reference models; tampering and message sequences.
#include "ref.h"
#include "StreamCipherFromName.h"
#include "AeadModeFromName.h"
#include "GCM.h"
#include "HBA.h"
#include "ChaChaP20.h"
#include "CSX512.h"
#include "RCS.h"
#include "RWS.h"
#include "SymmetricKey.h"
#include "SecureVector.h"
#include "CryptoAuthenticationFailure.h"
#include <memory>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using CEX::Cipher::SymmetricKey;
using CEX::Cipher::Stream::IStreamCipher;
typedef std::unique_ptr<IStreamCipher> Sc;

struct Def { ref::StreamKind k; const char* name; StreamCiphers plain, auth; };
static const std::vector<Def> ALL = {
	{ ref::CHACHA, "ChaCha20", StreamCiphers::ChaChaP20, StreamCiphers::CSXR20K256 }, { ref::CSX, "CSX512", StreamCiphers::CSX512, StreamCiphers::CSXR80K512 },
	{ ref::TSX256, "TSX256", StreamCiphers::TSX256, StreamCiphers::TSXR72K256 }, { ref::TSX512, "TSX512", StreamCiphers::TSX512, StreamCiphers::TSXR96K512 }, { ref::TSX1024, "TSX1024", StreamCiphers::TSX1024, StreamCiphers::TSXR120K512 },
	{ ref::RCS, "RCS", StreamCiphers::RCS, StreamCiphers::RCSK256 }, { ref::RWS, "RWS", StreamCiphers::RWS, StreamCiphers::RWSK512 } };

struct Keys { Bytes key, iv, info; };
// counters that carry soon, across one or several words
static void soonWrapping(Rng& r, Bytes& iv, size_t n)
{
	size_t ones = r.pick(std::vector<size_t>{ 1, 2, 3, 4, 7, 8, 9, 15, 16 });
	for (size_t i = 0; i < ones && i < n; ++i) iv[i] = 0xff;
	if (r.chance(70)) iv[0] = (uint8_t)(256 - r.range(1, 40));
	else if (n > 1) iv[0] = (uint8_t)r.below(256);
}
static Keys keysFor(const Def& d, Rng& r)
{
	const ref::StreamDef& s = ref::streamDef(d.k);
	Keys k;
	k.key = r.bytes(d.k == ref::RCS ? r.pick(std::vector<size_t>{ 32, 64 }) : d.k == ref::RWS ? r.pick(std::vector<size_t>{ 16, 32, 64 }) : s.key);
	k.iv = r.bytes(s.iv);
	if (d.k != ref::CHACHA && r.chance(50)) soonWrapping(r, k.iv, 16);
	if (r.chance(50)) k.info = r.bytes(s.info ? s.info : r.chance(50) ? r.range(4, 40) : r.range(4, 300));
	return k;
}
static void setParallel(Rng& r, ParallelOptions& p, const std::function<void(size_t)>& degree, bool par, std::string& ctx)
{
	p.IsParallel() = par;
	if (!par) { ctx += " sequential"; return; }
	size_t procs = p.ProcessorCount(), deg = r.pick(std::vector<size_t>{ 2, 4, 6, 8 });
	if (procs >= deg && r.chance(80)) degree(deg);
	if (r.chance(70)) p.SetBlockSize(p.ParallelMinimumSize() * r.range(1, 4));
	ctx += strf(" parallel degree %zu block %zu", p.ParallelMaxDegree(), p.ParallelBlockSize());
}
static std::string describe(const Def& d, const Keys& k) { return strf("%s key %s iv %s info %s", d.name, hex(k.key, 128).c_str(), hex(k.iv, 64).c_str(), hex(k.info, 300).c_str()); }
static size_t lengthFor(Rng& r, size_t block, size_t prl, size_t cap)
{
	size_t n;
	switch (r.below(6))
	{
		case 0: n = r.below(4 * block); break;
		case 1: n = prl + r.below(3) - 1; break;
		case 2: n = prl + r.below(prl); break;
		case 3: n = prl * r.range(1, 3) + r.below(2 * block); break;
		default: n = r.length(block, 20); break;
	}
	return n > cap ? cap - r.below(block) : n;
}

static void plainCase(const Def& d, Rng& r)
{
	std::string grp = std::string("stream:") + d.name;
	const ref::StreamDef& s = ref::streamDef(d.k);
	Sc c(Helper::StreamCipherFromName::GetInstance(d.plain));
	if (!expect(!c->IsAuthenticator() && !c->IsInitialized(), grp + ":fresh", "a fresh instance is authenticated or initialised")) return;
	for (int round = 0; round < 3; ++round)
	{
		Keys k = keysFor(d, r);
		bool enc = r.chance(50), par = r.chance(60);
		std::string ctx = describe(d, k) + strf(" %s round %d", enc ? "encrypt" : "decrypt", round);
		setParallel(r, c->ParallelProfile(), [&](size_t g) { c->ParallelMaxDegree(g); }, par, ctx);
		SymmetricKey kp(k.key, k.iv, k.info);
		c->Initialize(enc, kp);
		expect(c->IsInitialized() && c->IsEncryption() == enc, grp + ":state", "flags after Initialize");
		ref::Stream m(d.k, false, k.key, k.iv, k.info);
		size_t calls = r.range(1, 4), prl = c->ParallelBlockSize();
		for (size_t i = 0; i < calls; ++i)
		{
			size_t n = lengthFor(r, s.block, r.chance(40) ? c->ParallelProfile().ParallelMinimumSize() : prl, d.k >= ref::RCS ? 60000 : 200000);
			size_t io = r.below(20), oo = r.below(20);
			Bytes in = r.bytes(io + n + r.below(10)), out = r.bytes(oo + n + r.below(20)), want(out);
			Bytes o = m.process(ref::sub(in, io, n));
			std::copy(o.begin(), o.end(), want.begin() + oo);
			c->Transform(in, io, out, oo, n);
			std::string cc = ctx + strf(" call %zu length %zu offsets %zu %zu", i, n, io, oo);
			same(grp + (par ? ":parallel" : ":sequential"), out, want, cc);
			same(grp + ":nonce", ref::sub(c->Nonce(), 0, m.ctr.size()), m.ctr, cc);
			seen(grp + strf("%d%d%zu%zu%zu", enc, par, k.key.size(), n, k.info.size()), hash(out));
			count(par && n >= c->ParallelProfile().ParallelMinimumSize() ? "transforms of parallel size" : "transforms below parallel size");
			if (i == 0 && round == 0) sample(cc + " -> " + hex(o, 24));
		}
	}
}

// copies of an instance through its serialised state; ChaCha's counter (last 8 bytes before the
// byte counter and flags) is moved next to a carry this way
template<class C> static void stateCase(const Def& d, Rng& r, bool auth)
{
	std::string grp = std::string("stream:") + d.name + ":state";
	const ref::StreamDef& s = ref::streamDef(d.k);
	C a(auth);
	Keys k = keysFor(d, r);
	bool enc = r.chance(50);
	SymmetricKey kp(k.key, k.iv, k.info);
	a.Initialize(enc || auth, kp);
	ref::Stream m(d.k, auth, k.key, k.iv, k.info);
	std::string ctx = describe(d, k) + (auth ? " authenticated" : "");
	if (!auth && r.chance(60)) { Bytes in = r.bytes(r.range(1, 3000)), out(in.size()); a.Transform(in, 0, out, 0, in.size()); same(grp + ":before", out, m.process(in), ctx); }
	SecureVector<uint8_t> st = a.Serialize();
	if (d.k == ref::CHACHA)
	{
		Bytes c = r.bytes(8); soonWrapping(r, c, 8);
		size_t at = st.size() - 3 - 8 - 8;
		same(grp + ":counter", Bytes(st.begin() + at, st.begin() + at + 8), m.ctr, ctx);
		std::copy(c.begin(), c.end(), st.begin() + at);
		m.ctr = c;
	}
	C b(st);
	b.ParallelProfile().IsParallel() = r.chance(50);
	expect(b.IsInitialized() && b.IsEncryption() == a.IsEncryption() && b.IsAuthenticator() == auth, grp + ":flags", "the copy's flags differ: %s", ctx.c_str());
	expect(b.Name() == a.Name() && b.Enumeral() == a.Enumeral(), grp + ":name", "the copy is named %s instead of %s", b.Name().c_str(), a.Name().c_str());
	size_t n = r.chance(50) ? r.length(s.block, 30) : lengthFor(r, s.block, b.ParallelProfile().ParallelMinimumSize(), 60000);
	Bytes start = m.ctr, in = r.bytes(n), out(n + m.tagLen), o = m.process(in);
	b.Transform(in, 0, out, 0, n);
	if (auth) o = ref::cat({ o, m.tag({}, start, o) });
	same(grp + (auth ? ":auth" : ":plain"), out, o, ctx + strf(" counter %s length %zu", hex(start).c_str(), n));
	same(grp + ":nonce", ref::sub(b.Nonce(), 0, m.ctr.size()), m.ctr, ctx);
	seen(grp, hash(out));
	if (!auth) same(grp + ":again", Bytes(b.Serialize().size() ? 1 : 0), Bytes(1), ctx);
}

// the tag in its plain and its secure form, the latter into vectors of several sizes
template<class C> static Bytes allTags(C& c)
{
	Bytes t = c.Tag();
	for (size_t n : { (size_t)0, t.size() / 2, t.size(), t.size() + 3 })
	{
		SecureVector<uint8_t> v(n, 0xA5); c.Tag(v);
		Bytes got(v.begin(), v.end()), want(std::max(n, t.size()), 0xA5); std::copy(t.begin(), t.end(), want.begin());
		same("tag:secure", got, want, c.Name() + strf(" into %zu bytes", n));
	}
	return t;
}
// associated data in its plain and its secure form
template<class C> static void aadEither(C& c, const Bytes& b)
{
	if (b.size() % 3 == 1) { SecureVector<uint8_t> v(b.size() + 2, 0xC3); std::copy(b.begin(), b.end(), v.begin() + 1); c.SetAssociatedData(v, 1, b.size()); }
	else if (b.size() % 3 == 2) { Bytes v = ref::cat({ Bytes(3, 0x3C), b, Bytes(2, 1) }); c.SetAssociatedData(v, 3, b.size()); }
	else c.SetAssociatedData(b, 0, b.size());
}

// ---- authenticated ciphers behind one interface ----
struct Aead
{
	virtual ~Aead() {}
	virtual void init(bool enc, const Keys& k) = 0;
	virtual void aad(const Bytes& b) = 0;
	virtual void run(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t n) = 0;
	virtual Bytes tag() = 0;
	virtual ParallelOptions& par() = 0;
	virtual void degree(size_t n) = 0;
	virtual Keys keys(Rng& r) = 0;
	// what the model says; aads accumulate until the next message
	virtual void modelInit(const Keys& k) = 0;
	virtual void modelAad(const Bytes& b) = 0;
	virtual Bytes modelSeal(const Bytes& m, Bytes& tag) = 0;
	std::string name; size_t tagLen = 16, block = 16; bool manyAad = true, emptyAad = false, chain = false, slow = false; int pieces = 0;
};
struct StreamAead : Aead
{
	const Def& d; Sc c; std::unique_ptr<ref::Stream> m; std::vector<Bytes> a;
	StreamAead(const Def& d_) : d(d_), c(Helper::StreamCipherFromName::GetInstance(d_.auth)) { name = std::string(d.name) + "-auth"; block = ref::streamDef(d.k).block; slow = d.k >= ref::RCS; }
	void init(bool enc, const Keys& k) override { SymmetricKey p(k.key, k.iv, k.info); c->Initialize(enc, p); }
	void aad(const Bytes& b) override { if (b.size() % 3 == 2) { Bytes v = ref::cat({ Bytes(3, 0x3C), b, Bytes(2, 1) }); c->SetAssociatedData(v, 3, b.size()); } else c->SetAssociatedData(b, 0, b.size()); }
	void run(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t n) override { c->Transform(in, io, out, oo, n); }
	Bytes tag() override { return allTags(*c); }
	ParallelOptions& par() override { return c->ParallelProfile(); }
	void degree(size_t n) override { c->ParallelMaxDegree(n); }
	Keys keys(Rng& r) override { return keysFor(d, r); }
	void modelInit(const Keys& k) override { m.reset(new ref::Stream(d.k, true, k.key, k.iv, k.info)); tagLen = m->tagLen; a.clear(); }
	void modelAad(const Bytes& b) override { a.push_back(b); }
	Bytes modelSeal(const Bytes& x, Bytes& t) override { Bytes s = m->ctr, o = m->process(x); t = m->tag(a, s, o); a.clear(); return o; }
};
struct BlockDef { const char* name; BlockCiphers e; bool isAes; ref::Ext ext; };
static const std::vector<BlockDef> BLOCKS = {
	{ "AES", BlockCiphers::AES, true, ref::None }, { "Serpent", BlockCiphers::Serpent, false, ref::None },
	{ "RHXH256", BlockCiphers::RHXH256, true, ref::HKDF256 }, { "RHXH512", BlockCiphers::RHXH512, true, ref::HKDF512 }, { "RHXS256", BlockCiphers::RHXS256, true, ref::SHAKE256 }, { "RHXS512", BlockCiphers::RHXS512, true, ref::SHAKE512 },
	{ "SHXH256", BlockCiphers::SHXH256, false, ref::HKDF256 }, { "SHXS512", BlockCiphers::SHXS512, false, ref::SHAKE512 } };
static Keys blockKeys(const BlockDef& d, Rng& r, bool hba)
{
	Keys k;
	k.key = r.bytes(d.ext == ref::None ? r.pick(std::vector<size_t>{ 16, 24, 32 }) : hba ? r.pick(std::vector<size_t>{ 32, 64 }) : r.pick(std::vector<size_t>{ 32, 64 }));
	k.iv = r.bytes(hba ? 16 : r.chance(50) ? 12 : r.chance(40) ? 16 : r.range(10, 80));
	if (hba && r.chance(40)) soonWrapping(r, k.iv, 16);
	if (d.ext != ref::None && r.chance(40)) k.info = r.bytes(r.range(hba ? 4 : 1, 40));
	return k;
}
struct GcmAead : Aead
{
	const BlockDef& d; std::unique_ptr<Cipher::Block::Mode::GCM> c; ref::Block b; Bytes iv, a;
	GcmAead(const BlockDef& d_) : d(d_), c(new Cipher::Block::Mode::GCM(d_.e)) { name = std::string("GCM-") + d.name; manyAad = false; emptyAad = true; slow = d.ext != ref::None || !d.isAes; }
	void init(bool enc, const Keys& k) override { SymmetricKey p(k.key, k.iv, k.info); c->Initialize(enc, p); }
	void aad(const Bytes& x) override { aadEither(*c, x); }
	void run(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t n) override { c->Transform(in, io, out, oo, n); }
	Bytes tag() override { return allTags(*c); }
	ParallelOptions& par() override { return c->ParallelProfile(); }
	void degree(size_t n) override { c->ParallelMaxDegree(n); }
	Keys keys(Rng& r) override { return blockKeys(d, r, false); }
	void modelInit(const Keys& k) override { b = ref::block(d.isAes, d.ext, k.key, k.info); iv = k.iv; a.clear(); }
	void modelAad(const Bytes& x) override { a = x; }
	Bytes modelSeal(const Bytes& x, Bytes& t) override { Bytes o = ref::gcm(b, true, iv, a, x, t); a.clear(); return o; }
};
struct HbaAead : Aead
{
	const BlockDef& d; ref::HbaAuth au; std::unique_ptr<Cipher::Block::Mode::HBA> c; std::unique_ptr<ref::Hba> m;
	static StreamAuthenticators auth(ref::HbaAuth a) { static const StreamAuthenticators T[] = { StreamAuthenticators::HMACSHA2256, StreamAuthenticators::HMACSHA2512, StreamAuthenticators::KMAC256, StreamAuthenticators::KMAC512, StreamAuthenticators::Poly1305 }; return T[a]; }
	HbaAead(const BlockDef& d_, ref::HbaAuth a_) : d(d_), au(a_), c(new Cipher::Block::Mode::HBA(d_.e, auth(a_)))
	{
		static const char* AN[] = { "HMAC256", "HMAC512", "KMAC256", "KMAC512", "Poly1305" };
		name = std::string("HBA-") + d.name + "-" + AN[au]; emptyAad = true; chain = true; slow = d.ext != ref::None || !d.isAes;
		tagLen = au == ref::APOLY ? 16 : au == ref::AHMAC256 || au == ref::AKMAC256 ? 32 : 64;
	}
	void init(bool enc, const Keys& k) override { SymmetricKey p(k.key, k.iv, k.info); c->Initialize(enc, p); }
	void aad(const Bytes& x) override { aadEither(*c, x); }
	void run(const Bytes& in, size_t io, Bytes& out, size_t oo, size_t n) override { c->Transform(in, io, out, oo, n); }
	Bytes tag() override { return allTags(*c); }
	ParallelOptions& par() override { return c->ParallelProfile(); }
	void degree(size_t n) override { c->ParallelMaxDegree(n); }
	Keys keys(Rng& r) override { return blockKeys(d, r, true); }
	void modelInit(const Keys& k) override { m.reset(new ref::Hba(d.isAes, d.ext, d.name, au, k.key, k.iv, k.info)); }
	void modelAad(const Bytes& x) override { m->aad(x); }
	Bytes modelSeal(const Bytes& x, Bytes& t) override { return m->seal(x, t); }
};
typedef std::function<Aead*()> Maker;
struct Named { std::string name; Maker make; int weight; };
static std::vector<Named> aeads()
{
	std::vector<Named> v;
	for (auto& d : ALL) v.push_back({ std::string(d.name) + "-auth", [&d] { return new StreamAead(d); }, 3 });
	for (auto& d : BLOCKS) v.push_back({ std::string("GCM-") + d.name, [&d] { return new GcmAead(d); }, d.e == BlockCiphers::AES ? 4 : 1 });
	for (auto& d : BLOCKS)
		for (int a = ref::AHMAC256; a <= ref::APOLY; ++a)
			if (d.e == BlockCiphers::AES || d.e == BlockCiphers::RHXS256 || (a == ref::AHMAC512 && d.e == BlockCiphers::RHXH512) || (a == ref::AKMAC512 && d.e == BlockCiphers::SHXS512) || (a == ref::AKMAC256 && d.e == BlockCiphers::Serpent) || (a == ref::AHMAC256 && d.e == BlockCiphers::SHXH256))
				v.push_back({ HbaAead(d, (ref::HbaAuth)a).name, [&d, a] { return new HbaAead(d, (ref::HbaAuth)a); }, 1 });
	return v;
}
struct Msg { std::vector<Bytes> aads; Bytes pt, ct, tag; };
static Msg message(Aead& m, Rng& r, size_t cap)
{
	Msg x;
	size_t na = m.manyAad ? r.below(3) : r.below(2);
	for (size_t i = 0; i < na; ++i) x.aads.push_back(r.bytes(m.emptyAad && r.chance(10) ? 0 : r.chance(70) ? r.range(1, 40) : cap > 10000 && r.chance(8) ? r.range(65530, 66500) : r.range(1, 300)));
	size_t n = r.chance(70) ? r.length(m.block, 12) : lengthFor(r, m.block, m.par().ParallelBlockSize(), cap);
	x.pt = r.bytes(n > cap ? cap : n);
	for (auto& a : x.aads) m.modelAad(a);
	x.ct = m.modelSeal(x.pt, x.tag);
	return x;
}
static bool isAuthFailure(Aead& c, const std::function<void()>& f, const std::string& key, const std::string& ctx, bool anyError)
{
	try { f(); }
	catch (CEX::Exception::CryptoAuthenticationFailure&) { return true; }
	catch (std::exception& e) { if (!anyError) fail(key, "raised %s instead of an authentication failure: %s", e.what(), ctx.c_str()); return true; }
	catch (...) { if (!anyError) fail(key, "raised something else than an authentication failure: %s", ctx.c_str()); return true; }
	fail(key, "was accepted: %s", ctx.c_str()); return false;
}

// encryption and decryption of genuine messages equal the model, one instance reused throughout
static void aeadCase(const Named& nm, Rng& r)
{
	std::string grp = "aead:" + nm.name;
	std::unique_ptr<Aead> c(nm.make());
	for (int round = 0; round < 3; ++round)
	{
		Keys k = c->keys(r);
		bool enc = r.chance(50), par = r.chance(50);
		std::string ctx = strf("%s key %s iv %s info %s %s round %d", c->name.c_str(), hex(k.key, 128).c_str(), hex(k.iv, 80).c_str(), hex(k.info, 300).c_str(), enc ? "encrypt" : "decrypt", round);
		setParallel(r, c->par(), [&](size_t g) { c->degree(g); }, par, ctx);
		c->modelInit(k);
		c->init(enc, k);
		// sometimes abandon a message with its associated data
		if (r.chance(25)) { c->aad(r.bytes(r.range(1, 40))); Keys k2 = r.chance(50) ? c->keys(r) : k; if (r.chance(50)) { c->init(r.chance(50), k2); c->aad(r.bytes(5)); } c->init(enc, k); ctx += " after an abandoned message"; }
		size_t msgs = c->chain ? r.range(1, 4) : 1;
		for (size_t i = 0; i < msgs; ++i)
		{
			Msg m = message(*c, r, c->slow ? 30000 : 150000);
			size_t io = r.below(20), oo = r.below(20), n = m.pt.size();
			for (auto& a : m.aads) c->aad(a);
			std::string cc = ctx + strf(" message %zu length %zu aads %zu offsets %zu %zu", i, n, m.aads.size(), io, oo);
			Bytes sealed = ref::cat({ m.ct, m.tag });
			if (enc)
			{
				Bytes in = ref::cat({ r.bytes(io), m.pt, r.bytes(r.below(9)) }), out = r.bytes(oo + n + m.tag.size() + r.below(9)), want(out);
				std::copy(sealed.begin(), sealed.end(), want.begin() + oo);
				c->run(in, io, out, oo, n);
				same(grp + ":seal", out, want, cc);
				same(grp + ":tag", c->tag(), m.tag, cc);
			}
			else
			{
				Bytes in = ref::cat({ r.bytes(io), sealed, r.bytes(r.below(9)) }), out = r.bytes(oo + n + r.below(9)), want(out);
				std::copy(m.pt.begin(), m.pt.end(), want.begin() + oo);
				c->run(in, io, out, oo, n);
				same(grp + ":open", out, want, cc);
			}
			seen(grp + strf("%d%d%zu%zu%zu", enc, par, k.key.size(), n, m.aads.size()), hash(sealed));
			if (i == 0 && round == 0) sample(cc + " tag " + hex(m.tag, 16));
		}
	}
}

// anything but the genuine message is refused, and nothing of it is released
static void tamperCase(const Named& nm, Rng& r)
{
	std::string grp = "tamper:" + nm.name;
	std::unique_ptr<Aead> c(nm.make());
	c->par().IsParallel() = r.chance(30);
	Keys k = c->keys(r);
	c->modelInit(k);
	std::vector<Msg> ms;
	size_t nmsg = c->chain ? r.range(1, 3) : 1;
	for (size_t i = 0; i < nmsg; ++i) ms.push_back(message(*c, r, 3000));
	std::string base = strf("%s key %s iv %s info %s", c->name.c_str(), hex(k.key, 128).c_str(), hex(k.iv, 80).c_str(), hex(k.info, 300).c_str());
	auto attempt = [&](const Keys& kk, size_t target, const Msg& forged, const Bytes& sealed, size_t n, const std::string& what, bool anyError)
	{
		c->init(false, kk);
		for (size_t i = 0; i < target; ++i)
		{
			for (auto& a : ms[i].aads) c->aad(a);
			Bytes o(ms[i].pt.size()); c->run(ref::cat({ ms[i].ct, ms[i].tag }), 0, o, 0, o.size());
			same(grp + ":prefix", o, ms[i].pt, base);
		}
		for (auto& a : forged.aads) c->aad(a);
		Bytes out = r.bytes(n + 20), before(out);
		bool refused = isAuthFailure(*c, [&] { c->run(sealed, 0, out, r.below(20), n); }, grp + ":" + what, base + strf(" message %zu length %zu", target, n), anyError);
		if (refused) same(grp + ":released", out, before, base + " after a refused message (" + what + ")");
		seen(grp + what, hash(sealed) ^ hash(kk.key) ^ hash(kk.iv) ^ hash(forged.aads.empty() ? Bytes() : forged.aads[0]));
		if (refused) count("forgeries refused");
	};
	size_t t = r.below(nmsg);
	const Msg& g = ms[t];
	size_t n = g.pt.size();
	Bytes sealed = ref::cat({ g.ct, g.tag });
	// every bit of the tag, or some of them
	bool all = r.chance(15);
	for (size_t i = 0; i < g.tag.size() * 8; ++i) if (all || r.below(g.tag.size() * 8) < 6) { Bytes x(sealed); x[n + i / 8] ^= 1 << i % 8; attempt(k, t, g, x, n, "tag-bit", false); }
	// differences that cancel under weak comparisons
	{ Bytes x(sealed); size_t a = r.below(g.tag.size()), b = r.below(g.tag.size()); uint8_t v = (uint8_t)r.range(1, 255); if (a != b) { x[n + a] ^= v; x[n + b] ^= v; attempt(k, t, g, x, n, "tag-bytes", false); x = sealed; x[n + a] = (uint8_t)(x[n + a] + v); x[n + b] = (uint8_t)(x[n + b] - v); attempt(k, t, g, x, n, "tag-bytes", false); } }
	{ Bytes x(sealed); for (size_t i = 0; i < g.tag.size(); ++i) x[n + i] = 0; attempt(k, t, g, x, n, "tag-zero", false); }
	for (int i = 0; i < 4 && n; ++i) { Bytes x(sealed); x[r.chance(30) ? n - 1 - r.below(std::min<size_t>(n, 3)) : r.below(n)] ^= 1 << r.below(8); attempt(k, t, g, x, n, "ciphertext-bit", false); }
	if (n > 1) { Bytes x(sealed); size_t a = r.below(n), b = r.below(n); if (x[a] != x[b]) { std::swap(x[a], x[b]); attempt(k, t, g, x, n, "ciphertext-swap", false); } }
	// lengths: the same tag on a shorter or longer text, the text cut before its tag
	if (n) { size_t m = r.below(n); attempt(k, t, g, ref::cat({ ref::sub(g.ct, 0, m), g.tag }), m, "shortened", false); attempt(k, t, g, sealed, m, "shorter-length", false); }
	{ Bytes x = ref::cat({ g.ct, Bytes(r.range(1, 17)), g.tag }); attempt(k, t, g, x, x.size() - g.tag.size(), "zero-extended", false); }
	for (int i = 0; i < 3; ++i) { Bytes x = ref::sub(sealed, 0, r.chance(50) ? sealed.size() - 1 : r.below(sealed.size())); attempt(k, t, g, x, n, "truncated", true); }
	// key, nonce, info
	{ Keys x(k); x.key[r.below(x.key.size())] ^= 1 << r.below(8); attempt(x, 0, ms[0], ref::cat({ ms[0].ct, ms[0].tag }), ms[0].pt.size(), "key", false); }
	for (int i = 0; i < 3; ++i) { Keys x(k); x.iv[i == 0 ? 0 : i == 1 ? x.iv.size() - 1 : r.below(x.iv.size())] ^= 1 << r.below(8); attempt(x, 0, ms[0], ref::cat({ ms[0].ct, ms[0].tag }), ms[0].pt.size(), "nonce", false); }
	// (for the ciphers below info only keys the cipher, which the tag covers through the ciphertext)
	// associated data
	if (!g.aads.empty())
	{
		Msg f(g); size_t i = r.below(f.aads.size());
		if (!f.aads[i].empty())
		{
			f.aads[i][r.below(f.aads[i].size())] ^= 1 << r.below(8); attempt(k, t, f, sealed, n, "aad-bit", false);
			f = g; if (f.aads[i].size() > 1) { f.aads[i].pop_back(); attempt(k, t, f, sealed, n, "aad-shortened", false); }
			f = g; f.aads[i].push_back(0); attempt(k, t, f, sealed, n, "aad-extended", false);
			f = g; f.aads.erase(f.aads.begin() + i); attempt(k, t, f, sealed, n, "aad-dropped", false);
			// bytes moved between the associated data and the message
			if (n > 1) { f = g; f.aads[i].push_back(g.ct[0]); attempt(k, t, f, ref::cat({ ref::sub(g.ct, 1, n - 1), g.tag }), n - 1, "aad-shift", false); }
		}
	}
	else { Msg f(g); f.aads.push_back(r.bytes(r.range(1, 20))); attempt(k, t, f, sealed, n, "aad-added", false); }
	// replayed, dropped or reordered messages of a sequence
	if (nmsg > 1)
	{
		size_t other = (t + 1) % nmsg;
		attempt(k, t, ms[other], ref::cat({ ms[other].ct, ms[other].tag }), ms[other].pt.size(), "reordered", false);
		if (t) attempt(k, t, ms[t - 1], ref::cat({ ms[t - 1].ct, ms[t - 1].tag }), ms[t - 1].pt.size(), "replayed", false);
	}
	// and the instance still opens the genuine one
	c->init(false, k);
	for (auto& m : ms)
	{
		for (auto& a : m.aads) c->aad(a);
		Bytes o(m.pt.size()); c->run(ref::cat({ m.ct, m.tag }), 0, o, 0, o.size());
		same(grp + ":genuine-after", o, m.pt, base);
	}
}

// a call that is refused for its sizes leaves the message in progress intact
static void refusedCase(const Named& nm, Rng& r)
{
	std::string grp = "refused:" + nm.name, e;
	std::unique_ptr<Aead> c(nm.make());
	Keys k = c->keys(r);
	c->modelInit(k);
	Msg m = message(*c, r, 2000);
	bool enc = r.chance(50);
	std::string ctx = strf("%s %s length %zu", c->name.c_str(), enc ? "encrypt" : "decrypt", m.pt.size());
	c->init(enc, k);
	for (auto& a : m.aads) c->aad(a);
	Bytes sealed = ref::cat({ m.ct, m.tag }), in = enc ? m.pt : sealed, want = enc ? sealed : m.pt;
	size_t n = m.pt.size();
	if (enc) { Bytes out(n + r.below(m.tag.size())); expect(outcome([&] { c->run(in, 0, out, 0, n); }, &e) == Threw, grp + ":short-output", "an output without room for the tag was accepted: %s", ctx.c_str()); }
	else { Bytes cut = ref::sub(in, 0, n + r.below(m.tag.size())), out(n); expect(outcome([&] { c->run(cut, 0, out, 0, n); }, &e) == Threw, grp + ":short-input", "an input without a whole tag was accepted: %s", ctx.c_str()); }
	// keys that are refused do not disturb it either
	if (r.chance(50)) { Keys bad(k); bad.key.resize(r.chance(50) ? 5 : 300); expect(outcome([&] { c->init(enc, bad); }, &e) == Threw, grp + ":bad-key", "a key of %zu bytes was accepted", bad.key.size()); }
	if (r.chance(50)) { Keys bad(k); bad.iv.resize(r.range(1, 5)); expect(outcome([&] { c->init(enc, bad); }, &e) == Threw, grp + ":bad-iv", "a nonce of %zu bytes was accepted", bad.iv.size()); }
	Bytes out(want.size());
	if (outcome([&] { c->run(in, 0, out, 0, n); }, &e) != Returned) { fail(grp + ":after", "the message cannot be processed after a refused call: %s (%s)", ctx.c_str(), e.c_str()); return; }
	same(grp + ":after", out, want, ctx + " after a refused call");
	seen(grp + strf("%d", enc), hash(out));
}
// GCM: a new nonce under the key already set
static void renonceCase(Rng& r)
{
	const BlockDef& d = BLOCKS[r.chance(50) ? r.below(2) : r.below(BLOCKS.size())];
	Cipher::Block::Mode::GCM c(d.e);
	c.ParallelProfile().IsParallel() = r.chance(30);
	Keys k = blockKeys(d, r, false);
	ref::Block b = ref::block(d.isAes, d.ext, k.key, k.info);
	SymmetricKey p(k.key, k.iv, k.info);
	c.Initialize(true, p);
	for (int i = 0; i < 3; ++i)
	{
		Bytes pt = r.bytes(r.below(200)), a = r.bytes(r.below(30)), tag, want = ref::gcm(b, true, k.iv, a, pt, tag), out(pt.size() + 16), e(pt.size() + 16);
		if (!a.empty()) c.SetAssociatedData(a, 0, a.size());
		c.Transform(pt, 0, out, 0, pt.size());
		same("renonce:" + std::string(d.name), out, ref::cat({ want, tag }), strf("message %d under one key", i));
		seen("renonce", hash(out));
		k.iv = r.bytes(r.chance(60) ? 12 : 16);
		SymmetricKey q(Bytes(), k.iv);
		c.Initialize(true, q);
	}
}

void cases()
{
	if (part("plain"))
		for (auto& d : ALL) for (size_t i = 0; i < reps(60, 800); ++i) run(strf("stream:%s#%zu", d.name, i), [&](Rng& r) { plainCase(d, r); });
	if (part("state"))
		for (size_t i = 0; i < reps(60, 600); ++i)
			for (int a = 0; a < 2; ++a)
			{
				run(strf("state:ChaCha20-%d#%zu", a, i), [&](Rng& r) { stateCase<Cipher::Stream::ChaChaP20>(ALL[0], r, a); });
				run(strf("state:CSX512-%d#%zu", a, i), [&](Rng& r) { stateCase<Cipher::Stream::CSX512>(ALL[1], r, a); });
				run(strf("state:RCS-%d#%zu", a, i), [&](Rng& r) { stateCase<Cipher::Stream::RCS>(ALL[5], r, a); });
				run(strf("state:RWS-%d#%zu", a, i), [&](Rng& r) { stateCase<Cipher::Stream::RWS>(ALL[6], r, a); });
			}
	// a message whose length in bits exceeds a word, judged by OpenSSL's GCM
	if (part("large"))
		run("large:GCM-AES#0", [&](Rng& r)
		{
			size_t n = (513u << 20) + r.below(1000);
			Bytes key = r.bytes(32), iv = r.bytes(12), aad = r.bytes(66000 + r.below(5000)), b = r.bytes(1 << 20), in, out;
			in.resize(n); out.resize(n + 16);
			for (size_t o = 0; o < n; o += b.size()) { b[0] = (uint8_t)(o >> 20); std::memcpy(&in[o], b.data(), std::min(b.size(), n - o)); }
			Cipher::Block::Mode::GCM g(BlockCiphers::AES);
			SymmetricKey k(key, iv);
			g.Initialize(true, k);
			g.SetAssociatedData(aad, 0, aad.size());
			g.Transform(in, 0, out, 0, n);
			Bytes w(n), t(16); int l = 0;
			EVP_CIPHER_CTX* e = EVP_CIPHER_CTX_new();
			EVP_EncryptInit_ex(e, EVP_aes_256_gcm(), nullptr, key.data(), iv.data());
			EVP_EncryptUpdate(e, nullptr, &l, aad.data(), (int)aad.size());
			EVP_EncryptUpdate(e, w.data(), &l, in.data(), (int)n);
			EVP_EncryptFinal_ex(e, nullptr, &l);
			EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_GCM_GET_TAG, 16, t.data());
			EVP_CIPHER_CTX_free(e);
			expect(!std::memcmp(w.data(), out.data(), n), "aead:GCM-AES:large", "%zu bytes: the cipher-text differs", n);
			same("aead:GCM-AES:large:tag", ref::sub(out, n, 16), t, strf("%zu bytes, associated data %zu", n, aad.size()));
			seen("GCM-large", hash(t));
			count("bytes", n);
		});
	std::vector<Named> v = aeads();
	for (auto& n : v)
	{
		if (part("aead")) for (size_t i = 0; i < reps(12 * n.weight, 200 * n.weight); ++i) run(strf("aead:%s#%zu", n.name.c_str(), i), [&](Rng& r) { aeadCase(n, r); });
		if (part("tamper")) for (size_t i = 0; i < reps(6 * n.weight, 120 * n.weight); ++i) run(strf("tamper:%s#%zu", n.name.c_str(), i), [&](Rng& r) { tamperCase(n, r); });
		if (part("refused")) for (size_t i = 0; i < reps(5 * n.weight, 60 * n.weight); ++i) run(strf("refused:%s#%zu", n.name.c_str(), i), [&](Rng& r) { refusedCase(n, r); });
	}
	if (part("renonce")) for (size_t i = 0; i < reps(20, 300); ++i) run(strf("renonce#%zu", i), [&](Rng& r) { renonceCase(r); });
}
