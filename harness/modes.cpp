// Block ciphers and their unauthenticated modes against scalar reference models.
#include "h.h"
#include "ref.h"
#include "BlockCipherFromName.h"
#include "CipherModeFromName.h"
#include "CFB.h"
#include "CTR.h"
#include "ICM.h"
#include "RHX.h"
#include "SHX.h"
#include "SymmetricKey.h"
#include <memory>

using namespace CEX;
using namespace CEX::Enumeration;
using namespace CEX::Cipher::Block;
using namespace CEX::Cipher::Block::Mode;
using CEX::Cipher::SymmetricKey;
using namespace vh;

struct CipherDef { const char* name; BlockCiphers e; bool isAes; ref::Ext ext; };
static const CipherDef CIPHERS[] = {
	{ "AES", BlockCiphers::AES, true, ref::None }, { "Serpent", BlockCiphers::Serpent, false, ref::None },
	{ "RHXH256", BlockCiphers::RHXH256, true, ref::HKDF256 }, { "RHXH512", BlockCiphers::RHXH512, true, ref::HKDF512 }, { "RHXS256", BlockCiphers::RHXS256, true, ref::SHAKE256 }, { "RHXS512", BlockCiphers::RHXS512, true, ref::SHAKE512 },
	{ "SHXH256", BlockCiphers::SHXH256, false, ref::HKDF256 }, { "SHXH512", BlockCiphers::SHXH512, false, ref::HKDF512 }, { "SHXS256", BlockCiphers::SHXS256, false, ref::SHAKE256 }, { "SHXS512", BlockCiphers::SHXS512, false, ref::SHAKE512 } };

static std::vector<size_t> keySizes(const CipherDef& d)
{
	// AES is defined for three key sizes
	if (d.e == BlockCiphers::AES) return { 16, 24, 32 };
	return { 16, 24, 32, 64 };
}
static Bytes infoFor(Rng& r, const CipherDef& d) { return d.ext != ref::None && r.chance(50) ? r.bytes(r.pick(std::vector<size_t>{ 1, 7, 16, 32, 33, 100 })) : Bytes(); }
static Bytes special(Rng& r, size_t n)
{
	// values near the edges of counters and fields
	Bytes b = r.bytes(n);
	switch (r.below(8))
	{
		case 0: std::fill(b.begin(), b.end(), 0xff); break;
		case 1: std::fill(b.begin(), b.end(), 0); break;
		case 2: for (size_t i = n / 2; i < n; ++i) b[i] = 0xff; b[n - 1] = (uint8_t)(0xff - r.below(8)); break;     // carries out of the low half, big-endian
		case 3: for (size_t i = 0; i < n / 2; ++i) b[i] = 0xff; b[0] = (uint8_t)(0xff - r.below(8)); break;           // and little-endian
		case 4: for (size_t i = n - 4; i < n; ++i) b[i] = 0xff; b[n - 1] = (uint8_t)(0xff - r.below(4)); break;
		case 5: { size_t k = r.range(1, n - 1); for (size_t i = n - k; i < n; ++i) b[i] = 0xff; for (size_t i = 0; i + 1 < k && i < n - k; ++i) b[i] = 0xff; break; }
	}
	return b;
}

static void blockCase(const CipherDef& d, Rng& r)
{
	// one instance, used through several keys and directions
	std::unique_ptr<IKdf> kdf;
	std::unique_ptr<IBlockCipher> c(Helper::BlockCipherFromName::GetInstance(d.e));
	std::string grp = std::string("block:") + d.name;
	for (int round = 0; round < 3; ++round)
	{
		size_t ks = r.pick(keySizes(d));
		Bytes key = r.chance(10) ? Bytes(ks, (uint8_t)(r.chance(50) ? 0 : 0xff)) : r.bytes(ks), info = infoFor(r, d);
		SymmetricKey kp(key, Bytes(), info);
		ref::Block m = ref::block(d.isAes, d.ext, key, info);
		bool enc = r.chance(50);
		c->Initialize(enc, kp);
		expect(c->IsInitialized() && c->IsEncryption() == enc, grp + ":state", "flags after Initialize");
		{
			// no other key length is published, none is taken
			auto legal = keySizes(d); size_t n = r.chance(30) ? r.pick(std::vector<size_t>{ 16, 24, 32, 64, 128 }) : r.below(140);
			bool ok = std::find(legal.begin(), legal.end(), n) != legal.end();
			expect((bool)Cipher::SymmetricKeySize::Contains(c->LegalKeySizes(), n) == ok, grp + ":legal", "%zu bytes", n);
			if (!ok && n) { std::unique_ptr<IBlockCipher> o(Helper::BlockCipherFromName::GetInstance(d.e)); SymmetricKey bad(r.bytes(n)); expect(outcome([&] { o->Initialize(enc, bad); }) == Threw && !o->IsInitialized(), grp + ":illegal", "a key of %zu bytes was taken", n); }
		}
		expect(c->Rounds() == (size_t)(d.isAes ? m.r.rounds : m.s.rounds), grp + ":rounds", "key %zu: Rounds() is %zu", ks, c->Rounds());
		std::string ctx = strf("%s key %s info %s %s round %d", d.name, hex(key, 64).c_str(), hex(info, 100).c_str(), enc ? "encrypt" : "decrypt", round);
		for (int form = 0; form < 6; ++form)
		{
			static const size_t N[] = { 1, 1, 2, 4, 8, 16 };
			size_t n = 16 * N[form], io = r.below(20), oo = r.below(20);
			Bytes in = r.bytes(io + n + r.below(3)), out = r.bytes(oo + n + r.below(3)), want(out);
			Bytes o = ref::ecb(m, enc, ref::sub(in, io, n));
			std::copy(o.begin(), o.end(), want.begin() + oo);
			switch (form)
			{
				case 0: if (enc) c->EncryptBlock(in, io, out, oo); else c->DecryptBlock(in, io, out, oo); break;
				case 1: c->Transform(in, io, out, oo); break;
				case 2: c->Transform256(in, io, out, oo); break;
				case 3: c->Transform512(in, io, out, oo); break;
				case 4: c->Transform1024(in, io, out, oo); break;
				case 5: c->Transform2048(in, io, out, oo); break;
			}
			same(grp + strf(":transform%zu:%s", N[form], enc ? "enc" : "dec"), out, want, ctx);
			seen(grp + strf("%d%d%zu", form, enc, ks), hash(out));
		}
		// the forms without offsets
		Bytes in = r.bytes(16), out(16);
		if (enc) c->EncryptBlock(in, out); else c->DecryptBlock(in, out);
		same(grp + ":block", out, ref::ecb(m, enc, in), ctx);
		c->Transform(in, out);
		same(grp + ":block", out, ref::ecb(m, enc, in), ctx);
	}
}

enum Md { ECB_, CBC_, CFB_, OFB_, CTR_, ICM_ };
static const char* MODES[] = { "ECB", "CBC", "CFB", "OFB", "CTR", "ICM" };
static const CipherModes MODEE[] = { CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM };

static Bytes refMode(Md m, const ref::Block& b, bool enc, const Bytes& iv, const Bytes& in, size_t reg)
{
	switch (m)
	{
		case ECB_: return ref::ecb(b, enc, in);
		case CBC_: return ref::cbc(b, enc, iv, in);
		case CFB_: return ref::cfb(b, enc, iv, in, reg);
		case OFB_: return ref::ofb(b, iv, in);
		case CTR_: return ref::ctr(b, iv, in, false);
		default: return ref::ctr(b, iv, in, true);
	}
}

// sizes around the parallel threshold and not multiples of it
static size_t lengthFor(Rng& r, size_t gran, size_t prl, bool partialOk, size_t cap)
{
	size_t n;
	switch (r.below(7))
	{
		case 0: n = r.range(1, 17) * gran; break;
		case 1: n = prl; break;
		case 2: n = prl > gran ? prl - gran : gran; break;
		case 3: n = prl + gran * r.range(1, 9); break;
		case 4: n = prl * r.range(2, 3) + gran * r.below(20); break;
		default: n = gran * r.range(1, prl / gran * 2 + 8); break;
	}
	if (n > cap) n = cap / gran * gran;
	if (partialOk && r.chance(50)) n = n > gran ? n - r.below(gran) : r.range(1, gran);
	return n;
}

static void setParallel(Rng& r, Cipher::Block::Mode::ICipherMode& c, bool par, std::string& ctx)
{
	if (!par) { c.ParallelProfile().IsParallel() = false; ctx += " sequential"; return; }
	size_t deg = std::max<size_t>(2, r.pick(std::vector<size_t>{ 2, 4, 6, 8 }));
	size_t procs = c.ParallelProfile().ProcessorCount();
	if (deg > procs) deg = procs < 2 ? 2 : procs / 2 * 2;
	c.ParallelProfile().IsParallel() = true;
	if (r.chance(85) && procs >= deg) c.ParallelMaxDegree(deg);
	if (r.chance(75)) c.ParallelProfile().SetBlockSize(c.ParallelProfile().ParallelMinimumSize() * r.range(1, 5));
	ctx += strf(" parallel degree %zu block %zu", c.ParallelProfile().ParallelMaxDegree(), c.ParallelProfile().ParallelBlockSize());
}

static void modeCase(Md m, const CipherDef& d, Rng& r)
{
	std::string grp = std::string("mode:") + MODES[m] + "-" + d.name;
	size_t reg = m == CFB_ ? r.pick(std::vector<size_t>{ 1, 2, 3, 5, 8, 12, 15, 16, 16, 16 }) : 16;
	std::unique_ptr<ICipherMode> c(m == CFB_ ? new CFB(d.e, reg) : Helper::CipherModeFromName::GetInstance(d.e, MODEE[m]));
	for (int round = 0; round < 3; ++round)
	{
		size_t ks = r.pick(keySizes(d));
		size_t ivn = m == CFB_ && r.chance(30) ? r.range(1, 16) : 16;
		Bytes key = r.bytes(ks), iv = special(r, 16), info = infoFor(r, d);
		iv.resize(ivn);
		bool enc = r.chance(50), par = m != OFB_ && r.chance(60);
		std::string ctx = strf("%s-%s key %s iv %s info %s %s reg %zu round %d", MODES[m], d.name, hex(key, 64).c_str(), hex(iv).c_str(), hex(info, 100).c_str(), enc ? "encrypt" : "decrypt", reg, round);
		setParallel(r, *c, par, ctx);
		SymmetricKey kp(key, m == ECB_ ? Bytes() : iv, info);
		c->Initialize(enc, kp);
		expect(c->IsInitialized() && c->IsEncryption() == enc, grp + ":state", "flags after Initialize");
		{
			// no other key length is published, none is taken
			auto legal = keySizes(d); size_t n = r.chance(30) ? r.pick(std::vector<size_t>{ 16, 24, 32, 64, 128 }) : r.below(140);
			bool ok = std::find(legal.begin(), legal.end(), n) != legal.end();
			expect((bool)Cipher::SymmetricKeySize::Contains(c->LegalKeySizes(), n) == ok, grp + ":legal", "%zu bytes", n);
			if (!ok && n) { std::unique_ptr<IBlockCipher> o(Helper::BlockCipherFromName::GetInstance(d.e)); SymmetricKey bad(r.bytes(n)); expect(outcome([&] { o->Initialize(enc, bad); }) == Threw && !o->IsInitialized(), grp + ":illegal", "a key of %zu bytes was taken", n); }
		}
		ref::Block b = ref::block(d.isAes, d.ext, key, info);
		bool partial = m == CTR_ || m == ICM_;
		size_t gran = m == CFB_ ? reg : 16, prl = c->ParallelBlockSize();
		if (reg != 16) prl = 20 * reg;
		size_t cap = d.ext == ref::None && d.isAes ? 600000 : 40000;
		size_t n = lengthFor(r, gran, prl, partial, cap);
		if (m == CFB_ && reg < 4 && n > 3000) n = 3000 / reg * reg;
		size_t io = r.below(20), oo = r.below(20);
		Bytes in = r.bytes(io + n), out = r.bytes(oo + n + 17), want(out);
		Bytes o = refMode(m, b, enc, iv, ref::sub(in, io, n), reg);
		std::copy(o.begin(), o.end(), want.begin() + oo);
		// in one call or in several
		size_t calls = r.chance(50) ? 1 : r.range(2, 5), pos = 0;
		for (size_t k = 0; k < calls && pos < n; ++k)
		{
			size_t left = n - pos, t = k + 1 == calls ? left : std::min(left, gran * r.range(1, left / gran + 1));
			if (t % gran && pos + t != n) t = left;
			c->Transform(in, io + pos, out, oo + pos, t);
			pos += t;
		}
		if (pos < n) c->Transform(in, io + pos, out, oo + pos, n - pos);
		ctx += strf(" length %zu calls %zu", n, calls);
		same(grp + (par ? ":parallel" : ":sequential") + (enc ? ":enc" : ":dec"), out, want, ctx);
		seen(grp + strf("%d%d%zu%zu", enc, par, ks, n), hash(out));
		count(par && n >= prl ? "transforms on the parallel path" : "transforms on the sequential path");
		// single blocks continue the same stream
		if (m != CFB_ && !partial && r.chance(30))
		{
			Bytes i2 = r.bytes(16), o2(16);
			if (enc) c->EncryptBlock(i2, o2); else c->DecryptBlock(i2, o2);
			Bytes all = ref::sub(in, io, n); all.insert(all.end(), i2.begin(), i2.end());
			Bytes w = refMode(m, b, enc, iv, all, reg);
			same(grp + ":block", o2, ref::sub(w, n, 16), ctx + " then one block");
		}
		// a call that ends inside a counter block leaves the rest of it unused: the next one starts with the next counter
		for (size_t k = 0, v = (n + 15) / 16 * 16; partial && k < 3; ++k)
		{
			size_t l = r.chance(30) ? prl + r.below(40) : r.range(1, 100);
			if (l > 20000) l = 20000 + r.below(40);
			Bytes i2(v, 0), p2 = r.bytes(l), o2(l);
			i2.insert(i2.end(), p2.begin(), p2.end());
			c->Transform(p2, 0, o2, 0, l);
			same(grp + ":next", o2, ref::sub(refMode(m, b, enc, iv, i2, reg), v, l), ctx + strf(" then %zu bytes at %zu", l, v));
			v = (v + l + 15) / 16 * 16;
		}
		if (round == 0) sample(ctx + " -> " + hex(o, 24));
	}
}

// parallel and sequential instances, large data, real defaults
static void bigCase(Md m, const CipherDef& d, Rng& r)
{
	std::string grp = std::string("mode:") + MODES[m] + "-" + d.name;
	std::unique_ptr<ICipherMode> a(Helper::CipherModeFromName::GetInstance(d.e, MODEE[m])), b(Helper::CipherModeFromName::GetInstance(d.e, MODEE[m]));
	Bytes key = r.bytes(32), iv = special(r, 16);
	bool enc = (m == CBC_ || m == CFB_) ? false : r.chance(50);
	a->ParallelProfile().IsParallel() = m != OFB_; b->ParallelProfile().IsParallel() = false;
	SymmetricKey kp(key, m == ECB_ ? Bytes() : iv);
	a->Initialize(enc, kp); b->Initialize(enc, kp);
	size_t prl = a->ParallelBlockSize();
	size_t n = prl * r.range(1, 3) + 16 * r.below(1000);
	if (m == CTR_ || m == ICM_) n += r.below(16);
	Bytes in = r.bytes(n), x(n), y(n);
	a->Transform(in, 0, x, 0, n); b->Transform(in, 0, y, 0, n);
	same(grp + ":big", x, y, strf("%s parallel block %zu degree %zu length %zu key %s iv %s", enc ? "encrypt" : "decrypt", prl, a->ParallelProfile().ParallelMaxDegree(), n, hex(key).c_str(), hex(iv).c_str()));
	// and the streams still agree afterwards
	Bytes in2 = r.bytes(320), x2(320), y2(320);
	{ a->Transform(in2, 0, x2, 0, 320); b->Transform(in2, 0, y2, 0, 320); same(grp + ":after-big", x2, y2, strf("after %zu bytes", n)); }
	seen(grp + "big", hash(x));
}

void cases()
{
	for (auto& d : CIPHERS)
	{
		if (part("block")) for (size_t i = 0; i < reps(120, 3000); ++i) run(strf("block:%s#%zu", d.name, i), [&](Rng& r) { blockCase(d, r); });
		if (part("modes"))
			for (int m = ECB_; m <= ICM_; ++m)
				for (size_t i = 0; i < reps(d.e == BlockCiphers::AES ? 30 : 8, d.e == BlockCiphers::AES ? 400 : 120); ++i) run(strf("mode:%s-%s#%zu", MODES[m], d.name, i), [&](Rng& r) { modeCase((Md)m, d, r); });
		if (part("big"))
			for (int m = ECB_; m <= ICM_; ++m)
				for (size_t i = 0; i < reps(d.e == BlockCiphers::AES || d.e == BlockCiphers::Serpent ? 2 : 1, 8); ++i) run(strf("big:%s-%s#%zu", MODES[m], d.name, i), [&](Rng& r) { bigCase((Md)m, d, r); });
	}
}
