// Key encapsulation, key agreement and signatures: every output against a reference model, forged and
// malformed inputs, and the history of the one-time keys a stateful signer spends.
#include "ref_pq.h"
#include "AsymmetricKey.h"
#include "AsymmetricKeyPair.h"
#include "CryptoAsymmetricException.h"
#include "Dilithium.h"
#include "ECDH.h"
#include "ECDSA.h"
#include "IPrng.h"
#include "Kyber.h"
#include "McEliece.h"
#include "SphincsPlus.h"
#include "XMSS.h"
#include "XmssParameters.h"
#include <algorithm>
#include <memory>
#include <mutex>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using namespace CEX::Asymmetric;

// a generator whose output is a known stream
struct Known : Prng::IPrng
{
	Rng r; Bytes out;
	explicit Known(uint64_t s) : r(s) {}
	const Prngs Enumeral() override { return Prngs::BCR; }
	const std::string Name() override { return "known"; }
	uint8_t byte() { uint8_t b = (uint8_t)r.next(); if (out.size() < (1 << 16)) out.push_back(b); return b; }
	void Generate(std::vector<uint8_t>& o, size_t off, size_t n) override { for (size_t i = 0; i < n; ++i) o.at(off + i) = byte(); }
	void Generate(SecureVector<uint8_t>& o, size_t off, size_t n) override { for (size_t i = 0; i < n; ++i) o.at(off + i) = byte(); }
	void Generate(std::vector<uint8_t>& o) override { Generate(o, 0, o.size()); }
	void Generate(SecureVector<uint8_t>& o) override { Generate(o, 0, o.size()); }
	uint16_t NextUInt16() override { return (uint16_t)NextUInt64(); }
	uint32_t NextUInt32() override { return (uint32_t)NextUInt64(); }
	uint64_t NextUInt64() override { uint64_t x = 0; for (int i = 0; i < 8; ++i) x = x << 8 | byte(); return x; }
	void Reset() override {}
};
typedef std::unique_ptr<AsymmetricKey> Key;
typedef std::unique_ptr<AsymmetricKeyPair> Pair;
static Bytes poly(AsymmetricKey* k) { auto v = k->Polynomial(); return Bytes(v.begin(), v.end()); }
static Bytes poly(const Key& k) { return poly(k.get()); }
static Key key(const Bytes& p, AsymmetricPrimitives a, AsymmetricKeyTypes t, int params) { return Key(new AsymmetricKey(std::vector<uint8_t>(p), a, t, static_cast<AsymmetricParameters>(params))); }
// takes a pair apart; the pair does not own its keys any longer
struct Keys { Key pub, prv; };
static Keys split(AsymmetricKeyPair* p, AsymmetricPrimitives a, bool sign, int params)
{
	Pair own(p);
	Keys k;
	k.pub = key(poly(p->PublicKey()), a, sign ? AsymmetricKeyTypes::SignaturePublicKey : AsymmetricKeyTypes::CipherPublicKey, params);
	k.prv = key(poly(p->PrivateKey()), a, sign ? AsymmetricKeyTypes::SignaturePrivateKey : AsymmetricKeyTypes::CipherPrivateKey, params);
	return k;
}
static Bytes mangle(Rng& r, Bytes b, std::string* how = nullptr, size_t from = 0, size_t to = 0)
{
	if (!to) to = b.size();
	Bytes o = b;
	std::string h;
	switch (r.below(5))
	{
	case 0: { size_t i = r.range(from, to - 1); b[i] ^= 1 << r.below(8); h = "one bit"; break; }
	case 1: { size_t n = r.range(1, 4); while (n--) b[r.range(from, to - 1)] = (uint8_t)r.next(); h = "some bytes"; break; }
	case 2: { size_t i = r.range(from, to - 1), n = r.range(1, std::min<size_t>(to - i, 64)); for (size_t j = 0; j < n; ++j) b[i + j] = (uint8_t)r.next(); h = "a run"; break; }
	case 3: { size_t i = r.range(from, to - 1), n = r.range(1, to - i); memset(&b[i], r.chance(50) ? 0 : 0xff, n); h = "a constant run"; break; }
	default: { size_t i = r.range(from, to - 1), j = r.range(from, to - 1); std::swap(b[i], b[j]); h = "two bytes swapped"; }
	}
	if (b == o) { b[r.range(from, to - 1)] ^= 0x10; h += "+"; }
	if (how) *how = h;
	return b;
}

// ---- encapsulation -------------------------------------------------------------------------------
struct Kem
{
	virtual ~Kem() {}
	virtual const char* id() = 0;
	virtual std::string name() = 0;
	virtual Keys pair() = 0;
	virtual size_t ct() = 0;
	virtual void init(AsymmetricKey*) = 0;
	virtual void encaps(std::vector<uint8_t>& c, std::vector<uint8_t>& s) = 0;
	virtual bool decaps(const std::vector<uint8_t>& c, std::vector<uint8_t>& s) = 0;
	virtual std::vector<uint8_t>& domain() = 0;
	Known rng;
	explicit Kem(uint64_t s) : rng(s) {}
};
template<class T, class P> struct KemT : Kem
{
	P par; AsymmetricPrimitives prim; T x;
	KemT(P p, AsymmetricPrimitives a, uint64_t seed) : Kem(seed), par(p), prim(a), x(p, &rng) {}
	const char* id() override { return prim == AsymmetricPrimitives::Kyber ? "Kyber" : "McEliece"; }
	std::string name() override { return x.Name(); }
	Keys pair() override { return split(x.Generate(), prim, false, (int)par); }
	size_t ct() override { return x.CipherTextSize(); }
	void init(AsymmetricKey* k) override { x.Initialize(k); }
	void encaps(std::vector<uint8_t>& c, std::vector<uint8_t>& s) override { x.Encapsulate(c, s); }
	bool decaps(const std::vector<uint8_t>& c, std::vector<uint8_t>& s) override { return x.Decapsulate(c, s); }
	std::vector<uint8_t>& domain() override { return x.DomainKey(); }
};
typedef Encrypt::MLWE::Kyber CKyber;
typedef Encrypt::MPKC::McEliece CMcEliece;
static Kem* kyber(int k, uint64_t s)
{
	static const KyberParameters P[] = { KyberParameters::KYBERS1P1632, KyberParameters::KYBERS3P2400, KyberParameters::KYBERS5P3168, KyberParameters::KYBERS6P3936 };
	return new KemT<CKyber, KyberParameters>(P[k - 2], AsymmetricPrimitives::Kyber, s);
}
static const McElieceParameters MP[] = { McElieceParameters::MPKCS3N4608T96, McElieceParameters::MPKCS3N6960T119, McElieceParameters::MPKCS4N6688T128, McElieceParameters::MPKCS5N8192T128 };
static Kem* mceliece(int i, uint64_t s) { return new KemT<CMcEliece, McElieceParameters>(MP[i], AsymmetricPrimitives::McEliece, s); }

// decapsulation of an input that must be refused: nothing comes out
static void refuse(Kem& d, const std::string& k, const std::string& what, const Bytes& c, Rng& r)
{
	Bytes keep = r.bytes(r.pick(std::vector<size_t>{ 0, 32, 64 }));
	std::vector<uint8_t> s(keep);
	bool ok = true;
	std::string e;
	Outcome o = outcome([&] { ok = d.decaps(std::vector<uint8_t>(c), s); }, &e);
	if (o == ThrewForeign) fail(k + ":refuse-foreign", "%s: threw %s", what.c_str(), e.c_str());
	else if (o == Returned && ok) fail(k + ":accepted", "%s was accepted", what.c_str());
	expect(Bytes(s.begin(), s.end()) == keep, k + ":released", "%s: the secret was written", what.c_str());
	seen("refuse " + k + what, hash(c));
	count("refusals");
}
// the secret is stretched by the domain key, when there is one
static Bytes finish(Kem& x, const Bytes& sec, size_t n) { return x.domain().empty() ? sec : ref::cshake(72, sec, ref::str(x.name()), Bytes(x.domain().begin(), x.domain().end()), n); }
static void domains(Rng& r, Kem& a, Kem& b, size_t& n)
{
	Bytes d = r.chance(50) ? r.bytes(r.pick(std::vector<size_t>{ 1, 16, 32, 71, 72, 100 })) : Bytes();
	a.domain().assign(d.begin(), d.end());
	b.domain().assign(d.begin(), d.end());
	n = r.pick(std::vector<size_t>{ 32, 64, 72, 73, 200 });
	if (d.empty() && r.chance(50)) n = 0;
}
// sizes that are not the scheme's
static std::vector<size_t> sizes(Rng& r, size_t n) { return { 0, 1, n - 1, n + 1, r.below(n), n + r.range(1, 300), n / 2 }; }

static void kyberCase(Rng& r, int k)
{
	ref::Kyber m(k);
	std::unique_ptr<Kem> a(kyber(k, r.next())), b(kyber(k, r.next()));
	std::string id = strf("kyber:%d", k);
	Keys kp = b->pair();
	Bytes pk = poly(kp.pub), sk = poly(kp.prv);
	expect(pk.size() == m.pkLen() && sk.size() == m.skLen() && a->ct() == m.ctLen(), id + ":size", "wrong sizes");
	std::string bad = m.pair(pk, sk);
	expect(bad.empty(), id + ":pair", "key pair: %s", bad.c_str());
	seen("pair " + id, hash(pk));
	a->init(kp.pub.get());
	b->init(kp.prv.get());
	std::vector<Bytes> cts;
	for (int i = 0; i < 4; ++i)
	{
		size_t n;
		domains(r, *a, *b, n);
		// encapsulation against the model
		a->rng.out.clear();
		std::vector<uint8_t> c(r.pick(std::vector<size_t>{ 0, 10, m.ctLen() })), s(n), t(n);
		a->encaps(c, s);
		Bytes sec, want;
		want = m.encaps(pk, ref::sub(a->rng.out, 0, 32), sec);
		same(id + ":encaps-ct", c, want, "ciphertext");
		same(id + ":encaps-secret", s, finish(*a, sec, n), "secret");
		bool ok = b->decaps(c, t);
		expect(ok && t == s, id + ":agree", "the two sides disagree (%d)", ok);
		seen("encaps " + id, hash(c));
		cts.push_back(c);
		// an encapsulation made by the model
		Bytes c2 = m.encaps(pk, r.bytes(32), sec);
		t.assign(n, 0x55);
		ok = b->decaps(c2, t);
		expect(ok, id + ":refused", "a valid ciphertext was refused");
		same(id + ":decaps", t, finish(*b, sec, n), "secret of the model's ciphertext");
		seen("decaps " + id, hash(c2));
		// alterations
		for (int j = 0; j < 6; ++j)
		{
			std::string how;
			Bytes x = mangle(r, r.chance(50) ? Bytes(c.begin(), c.end()) : c2, &how);
			bool valid = false;
			if (j == 0) m.decaps(sk, x, valid);
			if (!valid) refuse(*b, id, "a ciphertext with " + how + " changed", x, r);
		}
		refuse(*b, id, "a random ciphertext", r.bytes(m.ctLen()), r);
		// a ciphertext that decrypts well but was not made from what it decrypts to
		refuse(*b, id, "an encryption with other coins", m.encrypt(pk, r.bytes(32), r.bytes(32)), r);
		refuse(*b, id, "a ciphertext of wrong size", r.chance(50) ? r.bytes(r.pick(sizes(r, m.ctLen()))) : [&] { Bytes x(c2); x.resize(r.pick(sizes(r, m.ctLen()))); return x; }(), r);
		if (i) expect(cts[i] != cts[i - 1], id + ":repeat", "two encapsulations are equal");
	}
	// another key pair
	Keys k2 = b->pair();
	std::unique_ptr<Kem> o(kyber(k, 7));
	o->init(k2.prv.get());
	refuse(*o, id, "a ciphertext for another key", cts[0], r);
	expect(poly(k2.pub) != pk, id + ":keyrepeat", "two key pairs are equal");
	// altered private keys: the encapsulation no longer matches (the last 32 bytes only serve rejection)
	Bytes x = mangle(r, sk, nullptr, 0, sk.size() - 32);
	Bytes sec; bool valid; Bytes c = m.encaps(pk, r.bytes(32), sec), want = m.decaps(x, c, valid);
	Key kx = key(x, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, (int)kp.prv->Parameters());
	o->init(kx.get());
	if (!valid) refuse(*o, id, "a ciphertext under an altered private key", c, r);
	else { std::vector<uint8_t> t(32); bool ok = o->decaps(c, t); expect(ok && Bytes(t) == want, id + ":altkey", "altered key"); }
}

// McEliece: syndrome of a given error vector under a systematic public key
struct Code { size_t n, mt, t, rowB, synB; };
static const Code CODES[] = { { 4608, 1248, 96, 420, 156 }, { 6960, 1547, 119, 677, 194 }, { 6688, 1664, 128, 628, 208 }, { 8192, 1664, 128, 816, 208 } };
static Bytes mcEncrypt(const Code& c, const Bytes& pk, const Bytes& e)
{
	Bytes s(c.synB);
	for (size_t i = 0; i < c.mt; ++i)
	{
		const uint8_t* row = &pk[i * c.rowB];
		int b = e[i / 8] >> (i % 8) & 1;
		for (size_t j = 0; j < c.n - c.mt; ++j) { size_t q = j + c.mt; b ^= (row[j / 8] >> (j % 8)) & (e[q / 8] >> (q % 8)) & 1; }
		s[i / 8] |= b << (i % 8);
	}
	return s;
}
static Bytes weight(Rng& r, const Code& c, size_t w)
{
	Bytes e(c.n / 8);
	while (w) { size_t i = r.below(c.n); if (e[i / 8] >> (i % 8) & 1) continue; e[i / 8] |= 1 << (i % 8); --w; }
	return e;
}
static void mcCase(Rng& r, int p)
{
	const Code& cd = CODES[p];
	std::unique_ptr<Kem> a(mceliece(p, r.next())), b(mceliece(p, r.next()));
	std::string id = strf("mceliece:%d", p);
	Keys kp = b->pair();
	Bytes pk = poly(kp.pub);
	expect(pk.size() == cd.mt * cd.rowB && a->ct() == cd.synB + 32, id + ":size", "wrong sizes %zu %zu", pk.size(), a->ct());
	if (pk.size() != cd.mt * cd.rowB) return;
	a->init(kp.pub.get());
	b->init(kp.prv.get());
	seen("pair " + id, hash(pk));
	auto craft = [&](const Bytes& e, Bytes& sec, int bad = -1) {
		Bytes c = mcEncrypt(cd, pk, e);
		c = ref::cat({ c, ref::shake(136, ref::cat({ Bytes{ 2 }, e }), 32) });
		if (bad >= 0) c[cd.synB + bad] ^= 1 << r.below(8);
		sec = ref::shake(136, ref::cat({ Bytes{ 1 }, e, c }), 32);
		return c;
	};
	std::vector<Bytes> cts;
	for (int i = 0; i < 4; ++i)
	{
		size_t n;
		domains(r, *a, *b, n);
		std::vector<uint8_t> c(r.below(300)), s(n), t(n);
		a->encaps(c, s);
		bool ok = b->decaps(c, t);
		expect(ok && t == s, id + ":agree", "the two sides disagree (%d)", ok);
		seen("encaps " + id, hash(Bytes(c)));
		cts.push_back(c);
		Bytes sec, e = weight(r, cd, cd.t), c2 = craft(e, sec);
		t.assign(n, 0x55);
		ok = b->decaps(c2, t);
		expect(ok, id + ":refused", "a valid ciphertext was refused");
		if (ok) same(id + ":decaps", t, finish(*b, sec, n), "secret of the model's ciphertext");
		seen("decaps " + id, hash(c2));
		Bytes x;
		refuse(*b, id, "an error of lower weight", craft(weight(r, cd, cd.t - r.range(1, 3)), x), r);
		refuse(*b, id, "no error", craft(Bytes(cd.n / 8), x), r);
		refuse(*b, id, "an error of higher weight", craft(weight(r, cd, cd.t + r.range(1, 3)), x), r);
		for (int at = i; at < 32; at += 4) refuse(*b, id, "a wrong confirmation", craft(e, x, at), r);
		for (int j = 0; j < 4; ++j)
		{
			std::string how;
			// bits beyond the syndrome are padding where its length is not a multiple of eight
			x = mangle(r, r.chance(50) ? Bytes(c) : c2, &how);
			bool pad = cd.mt % 8 != 0;
			if (pad) { x[cd.mt / 8] &= (1 << cd.mt % 8) - 1; if (x == Bytes(c) || x == c2) x[0] ^= 1; }
			refuse(*b, id, "a ciphertext with " + how + " changed", x, r);
		}
		refuse(*b, id, "a random ciphertext", r.bytes(cd.synB + 32), r);
		Bytes w(c2); w.resize(r.pick(sizes(r, cd.synB + 32)));
		refuse(*b, id, "a ciphertext of wrong size", w, r);
		if (i) expect(cts[i] != cts[i - 1], id + ":repeat", "two encapsulations are equal");
	}
}

// ---- key agreement ---------------------------------------------------------------------------------
static bool x25519(const Bytes& prv, const Bytes& pub, Bytes& out)
{
	EVP_PKEY* k = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, prv.data(), 32);
	EVP_PKEY* p = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, pub.data(), 32);
	EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, nullptr);
	size_t n = 32; out.assign(32, 0);
	bool ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, p) == 1 && EVP_PKEY_derive(c, out.data(), &n) == 1;
	EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); EVP_PKEY_free(p);
	return ok;
}
static Bytes x25519pub(const Bytes& prv)
{
	EVP_PKEY* k = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, prv.data(), 32);
	Bytes o(32); size_t n = 32;
	EVP_PKEY_get_raw_public_key(k, o.data(), &n);
	EVP_PKEY_free(k);
	return o;
}
static const std::vector<Bytes>& lowOrder()
{
	static std::vector<Bytes> v;
	if (v.empty()) for (auto h : { "0000000000000000000000000000000000000000000000000000000000000000", "0100000000000000000000000000000000000000000000000000000000000000",
		"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" }) v.push_back(unhex(h));
	return v;
}
static void ecdhCase(Rng& r, bool sha2)
{
	auto par = sha2 ? ECDHParameters::ECDHS2P25519S : ECDHParameters::ECDHS1P25519K;
	std::string id = sha2 ? "ecdh:S2" : "ecdh:S1";
	typedef Encrypt::ECDH::ECDH E;
	Known g(r.next());
	E a(par, &g);
	auto make = [&](AsymmetricKeyTypes t, const Bytes& b) { return key(b, AsymmetricPrimitives::ECDH, t, (int)par); };
	auto own = [&](const Bytes& seed) { Bytes h = sha2 ? ref::sha2(512, seed) : ref::sha3(72, 64, seed); return ref::sub(h, 0, 32); };
	for (int i = 0; i < 6; ++i)
	{
		Keys kp; Bytes seed;
		if (r.chance(50)) { seed = r.bytes(32); std::vector<uint8_t> s(seed); kp = split(a.Generate(s), AsymmetricPrimitives::ECDH, false, (int)par); }
		else { g.out.clear(); kp = split(a.Generate(), AsymmetricPrimitives::ECDH, false, (int)par); seed = ref::sub(g.out, 0, 32); }
		Bytes prv = own(seed), pub = x25519pub(prv);
		// the private key carries 32 bytes and whatever the class pads it with
		Bytes gp = poly(kp.prv), gq = poly(kp.pub);
		same(id + ":private", ref::sub(gp, 0, 32), prv, "private key");
		same(id + ":public", gq, pub, "public key");
		seen("pair " + id, hash(pub));
		// the other side: honest, random, not canonical, of low order, with the unused bit set
		Bytes other;
		int kind = (int)r.below(5);
		if (kind == 0) other = x25519pub(r.bytes(32));
		else if (kind == 1) other = r.bytes(32);
		else if (kind == 2) other = r.pick(lowOrder());
		else if (kind == 3) { other = Bytes(32, 0xff); other[0] = (uint8_t)r.range(0xed, 0xff); other[31] = 0x7f; }
		else { other = x25519pub(r.bytes(32)); }
		if (r.chance(30)) other[31] |= 0x80;
		Bytes want;
		bool ok = x25519(prv, other, want);
		Bytes d = r.chance(40) ? r.bytes(r.range(1, 80)) : Bytes();
		a.DomainKey().assign(d.begin(), d.end());
		size_t n = r.pick(std::vector<size_t>{ 32, 64, 73 });
		Bytes keep = r.bytes(n);
		std::vector<uint8_t> s(keep);
		Key ok1 = make(AsymmetricKeyTypes::CipherPublicKey, other);
		bool got = false;
		std::string e;
		Outcome o = outcome([&] { got = a.KeyExchange(ok1.get(), kp.prv.get(), s); }, &e);
		count(strf("exchange kind %d", kind));
		seen("exchange " + id, hash(other) ^ hash(prv));
		if (!expect(o == Returned, id + ":threw", "threw %s", e.c_str())) continue;
		if (!ok)
		{
			expect(!got, id + ":degenerate", "an all-zero agreement with the public key %s was accepted", hex(other).c_str());
			expect(Bytes(s) == keep, id + ":released", "the refused exchange wrote the secret");
			continue;
		}
		if (!expect(got, id + ":refused", "refused an honest key")) continue;
		same(id + ":secret", s, d.empty() ? want : ref::cshake(72, want, ref::str(a.Name()), d, n), "agreed secret");
		// both sides agree
		if (kind == 0)
		{
			std::vector<uint8_t> s2(seed = r.bytes(32));
			Keys k2 = split(a.Generate(s2), AsymmetricPrimitives::ECDH, false, (int)par);
			std::vector<uint8_t> x(n), y(n);
			expect(a.KeyExchange(k2.pub.get(), kp.prv.get(), x) && a.KeyExchange(kp.pub.get(), k2.prv.get(), y) && x == y, id + ":agree", "the two sides disagree");
		}
	}
	// keys of wrong size
	Keys kp = split(a.Generate(), AsymmetricPrimitives::ECDH, false, (int)par);
	for (bool pubSide : { true, false })
	{
		Key bad = make(pubSide ? AsymmetricKeyTypes::CipherPublicKey : AsymmetricKeyTypes::CipherPrivateKey, r.bytes(r.pick(std::vector<size_t>{ 1, 16, 31 })));
		Bytes keep = r.bytes(32); std::vector<uint8_t> s(keep); bool got = true; std::string e;
		Outcome o = outcome([&] { got = a.KeyExchange(pubSide ? bad.get() : kp.pub.get(), pubSide ? kp.prv.get() : bad.get(), s); }, &e);
		expect(o == Threw || (o == Returned && !got), id + ":short-key", "a short key was used (%s)", e.c_str());
		expect(Bytes(s) == keep, id + ":short-key-released", "a secret came out of a short key");
		seen("short " + id, hash(poly(bad)));
	}
	for (size_t n : { 0, 31, 33, 64 })
	{
		std::vector<uint8_t> s(n);
		expect(outcome([&] { delete a.Generate(s); }) == Threw, id + ":seed", "a seed of %zu bytes was accepted", n);
	}
}

// ---- signatures -------------------------------------------------------------------------------------
struct Sgn
{
	virtual ~Sgn() {}
	virtual std::string name() = 0;
	virtual Keys pair() = 0;
	virtual Key pub(const Bytes&) = 0; virtual Key prv(const Bytes&) = 0;
	virtual size_t size() = 0;
	virtual void init(AsymmetricKey*) = 0;
	virtual size_t sign(const Bytes& m, std::vector<uint8_t>& s) = 0;
	virtual bool verify(const Bytes& s, std::vector<uint8_t>& m) = 0;
	Known rng;
	explicit Sgn(uint64_t s) : rng(s) {}
};
template<class T, class P> struct SgnT : Sgn
{
	P par; AsymmetricPrimitives prim; T x;
	SgnT(P p, AsymmetricPrimitives a, uint64_t seed) : Sgn(seed), par(p), prim(a), x(p, &rng) {}
	std::string name() override { return x.Name(); }
	Keys pair() override { return split(x.Generate(), prim, true, (int)par); }
	Key pub(const Bytes& b) override { return key(b, prim, AsymmetricKeyTypes::SignaturePublicKey, (int)par); }
	Key prv(const Bytes& b) override { return key(b, prim, AsymmetricKeyTypes::SignaturePrivateKey, (int)par); }
	size_t size() override { return x.SignatureSize(); }
	void init(AsymmetricKey* k) override { x.Initialize(k); }
	size_t sign(const Bytes& m, std::vector<uint8_t>& s) override { return x.Sign(std::vector<uint8_t>(m), s); }
	bool verify(const Bytes& s, std::vector<uint8_t>& m) override { return x.Verify(std::vector<uint8_t>(s), m); }
};
typedef Sign::DLTM::Dilithium CDilithium;
typedef Sign::SPXP::SphincsPlus CSphincs;
typedef Sign::XMSS::XMSS CXmss;
typedef Sign::ECDSA::ECDSA CEcdsa;

// verification as the property has it: accept exactly what the model accepts, hand out the message then and only then
static void judge(Sgn& v, const std::string& id, const Bytes& sm, bool want, const std::string& what, Rng& r)
{
	std::vector<uint8_t> m(r.pick(std::vector<size_t>{ 0, 3, 40, 500 }), 0xA5);
	bool got = false;
	std::string e;
	Outcome o = outcome([&] { got = v.verify(sm, m); }, &e);
	count(want ? "verifications of valid signatures" : "verifications of invalid signatures");
	seen("verify " + id, hash(sm) ^ want);
	Bytes msg = sm.size() > v.size() ? Bytes(sm.begin() + v.size(), sm.end()) : Bytes();
	if (want)
	{
		if (expect(o == Returned && got, id + ":refused", "%s was refused (%s)", what.c_str(), e.c_str())) same(id + ":message", Bytes(m), msg, "message returned for " + what);
		return;
	}
	expect(o != ThrewForeign, id + ":foreign", "%s: threw %s", what.c_str(), e.c_str());
	expect(o != Returned || !got, id + ":accepted", "%s was accepted", what.c_str());
	expect(msg.size() < 4 || Bytes(m) != msg, id + ":released", "%s was refused but its message handed out", what.c_str());
}
static Bytes make(Sgn& s, const std::string& id, const Bytes& m, Rng& r)
{
	// the output buffer holds something from before
	std::vector<uint8_t> sm(r.bytes(r.pick(std::vector<size_t>{ 0, 8, s.size(), s.size() + m.size() })));
	size_t n = s.sign(m, sm);
	expect(n == sm.size() && n == s.size() + m.size(), id + ":length", "signature of %zu, buffer of %zu bytes", n, sm.size());
	if (sm.size() > m.size()) expect(Bytes(sm.end() - m.size(), sm.end()) == m, id + ":attached", "the message is not attached");
	return sm;
}
static Bytes message(Rng& r) { return r.bytes(r.chance(20) ? r.range(1, 3) : r.chance(20) ? r.range(500, 3000) : r.range(1, 300)); }
static Bytes cut(const Bytes& b, size_t n) { Bytes x(b); x.resize(n); return x; }
// what every scheme has to refuse
static void hostile(Sgn& v, const std::string& id, const Bytes& sm, Rng& r, const std::function<bool(const Bytes&)>& ref, int n)
{
	for (int i = 0; i < n; ++i)
	{
		std::string how;
		bool body = r.chance(75);
		Bytes x = mangle(r, sm, &how, body ? 0 : v.size(), body ? v.size() : sm.size());
		if (x == sm) continue;
		judge(v, id, x, ref(x), "a signature with " + how + " changed", r);
	}
	Bytes x(sm);
	x.push_back((uint8_t)r.next());
	judge(v, id, x, ref(x), "an extended message", r);
	if (sm.size() > v.size()) { x = cut(sm, sm.size() - 1); judge(v, id, x, ref(x), "a shortened message", r); }
	for (size_t len : { size_t(0), size_t(1), v.size() / 2, v.size() - 1, v.size(), (size_t)r.below(v.size()) }) { x = cut(sm, len); judge(v, id, x, len >= v.size() && ref(x), strf("a signature cut to %s", len == 0 ? "nothing" : len < v.size() ? "less than a signature" : "no message"), r); }
	judge(v, id, r.bytes(v.size() + 20), false, "random bytes", r);
	x = ref::cat({ Bytes(sm.begin(), sm.begin() + v.size()), r.bytes(sm.size() - v.size() + 5) });
	judge(v, id, x, false, "a signature of another message", r);
}
static void states(Sgn& s, const std::string& id, Keys& kp, Rng& r)
{
	std::vector<uint8_t> o(5), m(5);
	Bytes msg = r.bytes(9);
	s.init(kp.pub.get());
	expect(outcome([&] { s.sign(msg, o); }) == Threw, id + ":sign-public", "signed with a public key");
	s.init(kp.prv.get());
	expect(outcome([&] { s.verify(Bytes(s.size() + 4), m); }) == Threw, id + ":verify-private", "verified with a private key");
	expect(outcome([&] { s.sign(Bytes(), o); }) == Threw, id + ":empty", "signed an empty message");
	seen("states " + id, hash(msg));
}

static void dilithiumCase(Rng& r, int level)
{
	auto par = level == 2 ? DilithiumParameters::DLTMS1P2544 : level == 3 ? DilithiumParameters::DLTMS3P4016 : DilithiumParameters::DLTMS5P4880;
	std::string id = strf("dilithium:%d", level);
	ref::Dilithium m(level);
	auto mk = [&] { return std::unique_ptr<Sgn>(new SgnT<CDilithium, DilithiumParameters>(par, AsymmetricPrimitives::Dilithium, r.next())); };
	auto s = mk(), v = mk();
	Keys kp = s->pair();
	Bytes pk = poly(kp.pub), sk = poly(kp.prv);
	if (!expect(pk.size() == m.pkLen() && sk.size() == m.skLen() && s->size() == m.sigLen(), id + ":size", "wrong sizes")) return;
	std::string bad = m.pair(pk, sk);
	expect(bad.empty(), id + ":pair", "key pair: %s", bad.c_str());
	seen("pair " + id, hash(pk));
	states(*s, id, kp, r);
	s->init(kp.prv.get());
	v->init(kp.pub.get());
	auto ref = [&](const Bytes& x) { return m.verify(pk, x); };
	for (int i = 0; i < 3; ++i)
	{
		Bytes msg = message(r), sm = make(*s, id, msg, r);
		same(id + ":sign", sm, m.sign(sk, msg, false), "signature");
		judge(*v, id, sm, true, "its own signature", r);
		Bytes m2 = message(r), s2 = m.sign(sk, m2, false);
		judge(*v, id, s2, true, "the model's signature", r);
		hostile(*v, id, sm, r, ref, 4);
		// the hint part, whose encoding has to be the only one
		size_t h = m.sigLen() - m.omega - m.K, end = sm[m.sigLen() - 1];
		for (int j = 0; j < 8; ++j)
		{
			Bytes x = sm;
			std::string what;
			switch (j == 0 ? 6 : r.below(7))
			{
			case 6:
			{
				// the same hints, one of them listed twice
				if (end < 1 || end >= (size_t)m.omega) continue;
				size_t p = r.below(end), poly = 0;
				while (x[h + m.omega + poly] <= p) ++poly;
				std::copy_backward(x.begin() + h + p, x.begin() + h + end, x.begin() + h + end + 1);
				for (; poly < (size_t)m.K; ++poly) ++x[h + m.omega + poly];
				what = "a hint listed twice"; break;
			}
			case 0: { if (end < 2) continue; size_t p = r.below(end - 1); std::swap(x[h + p], x[h + p + 1]); what = "two hint positions swapped"; break; }
			case 1: { if (end < 2) continue; size_t p = r.below(end - 1); x[h + p + 1] = x[h + p]; what = "a hint position repeated"; break; }
			case 2: { if (end >= (size_t)m.omega) continue; x[h + r.range(end, m.omega - 1)] = (uint8_t)r.range(1, 255); what = "an unused hint position set"; break; }
			case 3: { x[h + m.omega + r.below(m.K)] = (uint8_t)r.range(m.omega + 1, 255); what = "a hint count over the bound"; break; }
			case 4: { size_t p = r.below(m.K); if (!x[h + m.omega + p]) continue; x[h + m.omega + p] -= (uint8_t)r.range(1, x[h + m.omega + p]); what = "a hint count lowered"; break; }
			default: { x[h + m.omega + m.K - 1] = (uint8_t)r.range(0, m.omega); what = "the last hint count changed"; }
			}
			if (x == sm) continue;
			judge(*v, id, x, ref(x), "a signature with " + what, r);
		}
		// a signature whose response is over the bound
		Bytes big = m.sign(sk, msg, true, &r);
		if (!big.empty() && m.verify(pk, big, false) && !m.verify(pk, big)) { judge(*v, id, big, false, "a response over the bound", r); count("responses over the bound"); }
	}
	Keys k2 = s->pair();
	Bytes msg = message(r), sm = make(*s, id, msg, r);
	v->init(k2.pub.get());
	judge(*v, id, sm, false, "a signature under another key", r);
	Key kx = v->pub(mangle(r, pk));
	v->init(kx.get());
	judge(*v, id, sm, m.verify(poly(kx), sm), "a signature under an altered key", r);
}

static void sphincsCase(Rng& r, int level, int n)
{
	auto par = level == 1 ? SphincsPlusParameters::SPXPS1S128SHAKE : level == 3 ? SphincsPlusParameters::SPXPS3S192SHAKE : level == 5 ? SphincsPlusParameters::SPXPS5S256SHAKE : SphincsPlusParameters::SPXPS6S512SHAKE;
	std::string id = strf("sphincs:%d", level);
	ref::Sphincs m(level);
	auto mk = [&] { return std::unique_ptr<Sgn>(new SgnT<CSphincs, SphincsPlusParameters>(par, AsymmetricPrimitives::SphincsPlus, r.next())); };
	auto s = mk(), v = mk();
	Keys kp = s->pair();
	Bytes pk = poly(kp.pub), sk = poly(kp.prv);
	if (!expect(pk.size() == 2 * m.n && sk.size() == 4 * m.n && s->size() == m.sigLen(), id + ":size", "wrong sizes")) return;
	expect(Bytes(sk.begin() + 2 * m.n, sk.end()) == pk, id + ":pair", "the public key is not in the private key");
	same(id + ":root", ref::sub(pk, m.n, m.n), m.root(ref::sub(sk, 0, m.n), ref::sub(pk, 0, m.n)), "root");
	seen("pair " + id, hash(pk));
	states(*s, id, kp, r);
	s->init(kp.prv.get());
	v->init(kp.pub.get());
	auto ref = [&](const Bytes& x) { return m.verify(pk, x); };
	std::set<Bytes> rs;
	for (int i = 0; i < n; ++i)
	{
		Bytes msg = message(r), sm = make(*s, id, msg, r);
		expect(m.verify(pk, sm), id + ":sign", "the model refuses its signature");
		expect(rs.insert(ref::sub(sm, 0, m.n)).second, id + ":randomizer", "the message randomizer repeats");
		judge(*v, id, sm, true, "its own signature", r);
		hostile(*v, id, sm, r, ref, 4);
	}
	Bytes msg = message(r), sm = make(*s, id, msg, r);
	Key kx = v->pub(mangle(r, pk));
	v->init(kx.get());
	judge(*v, id, sm, m.verify(poly(kx), sm), "a signature under an altered key", r);
}

static bool ed25519verify(const Bytes& pk, const Bytes& sm)
{
	if (sm.size() < 64) return false;
	EVP_PKEY* p = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, pk.data(), 32);
	EVP_MD_CTX* c = EVP_MD_CTX_new();
	bool ok = EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, p) == 1 && EVP_DigestVerify(c, sm.data(), 64, sm.data() + 64, sm.size() - 64) == 1;
	EVP_MD_CTX_free(c); EVP_PKEY_free(p); ERR_clear_error();
	return ok;
}
static Bytes ed25519sign(const Bytes& seed, const Bytes& m, Bytes& pk)
{
	EVP_PKEY* p = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, seed.data(), 32);
	EVP_MD_CTX* c = EVP_MD_CTX_new();
	Bytes s(64); size_t n = 64; pk.assign(32, 0);
	EVP_PKEY_get_raw_public_key(p, pk.data(), &n); n = 64;
	EVP_DigestSignInit(c, nullptr, nullptr, nullptr, p);
	EVP_DigestSign(c, s.data(), &n, m.data(), m.size());
	EVP_MD_CTX_free(c); EVP_PKEY_free(p);
	return ref::cat({ s, m });
}
static void ecdsaCase(Rng& r, bool sha2)
{
	auto par = sha2 ? ECDSAParameters::ECDSAS2P25519S : ECDSAParameters::ECDSAS1P25519K;
	std::string id = sha2 ? "ecdsa:S2" : "ecdsa:S1";
	auto mk = [&] { return std::unique_ptr<SgnT<CEcdsa, ECDSAParameters>>(new SgnT<CEcdsa, ECDSAParameters>(par, AsymmetricPrimitives::ECDSA, r.next())); };
	auto s = mk(), v = mk();
	Bytes seed = r.bytes(32);
	std::vector<uint8_t> sd(seed);
	Keys kp = split(s->x.Generate(sd), AsymmetricPrimitives::ECDSA, true, (int)par);
	Bytes pk = poly(kp.pub), sk = poly(kp.prv), rpk;
	seen("pair " + id, hash(pk));
	states(*s, id, kp, r);
	s->init(kp.prv.get());
	v->init(kp.pub.get());
	same(id + ":private", sk, ref::cat({ seed, pk }), "private key");
	auto ref = [&](const Bytes& x) { return sha2 && ed25519verify(pk, x); };
	static const Bytes L = unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
	for (int i = 0; i < 4; ++i)
	{
		Bytes msg = message(r), sm;
		std::string e;
		if (!expect(outcome([&] { sm = make(*s, id, msg, r); }, &e) == Returned, id + ":sign-threw", "signing threw %s", e.c_str())) return;
		if (sha2) { same(id + ":sign", sm, ed25519sign(seed, msg, rpk), "signature"); same(id + ":public", pk, rpk, "public key"); }
		else { Bytes again = make(*s, id, msg, r); same(id + ":deterministic", again, sm, "second signature of the same message"); }
		judge(*v, id, sm, true, "its own signature", r);
		hostile(*v, id, sm, r, ref, 8);
		// the same scalar in another representation
		Bytes x = sm; int cy = 0;
		for (int j = 0; j < 32; ++j) { int t = x[32 + j] + L[j] + cy; x[32 + j] = (uint8_t)t; cy = t >> 8; }
		judge(*v, id, x, false, "a signature whose scalar is not reduced", r);
		// degenerate keys and points: anything would verify
		// (R = B, S = 1 fits whenever the hash is a multiple of the key's order; R and S of zero likewise)
		static const std::vector<Bytes> small = [] {
			std::vector<Bytes> k;
			for (auto h : { "0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "0000000000000000000000000000000000000000000000000000000000000000",
				"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05" }) { k.push_back(unhex(h)); k.push_back(k.back()); k.back()[31] ^= 0x80; }
			return k;
		}();
		static const Bytes B = unhex("5866666666666666666666666666666666666666666666666666666666666666");
		for (auto& p : small)
		{
			auto w = mk();
			Key kx = w->pub(p);
			w->init(kx.get());
			Bytes f(64); f[0] = 1;
			judge(*w, id, ref::cat({ f, msg }), false, "a forgery under a key of small order", r);
			std::copy(B.begin(), B.end(), f.begin()); std::fill(f.begin() + 32, f.end(), 0); f[32] = 1;
			for (int j = 0; j < 6; ++j) judge(*w, id, ref::cat({ f, message(r) }), false, "a forgery under a key of small order", r);
		}
	}
	Keys k2 = split(s->x.Generate(), AsymmetricPrimitives::ECDSA, true, (int)par);
	Bytes sm = make(*s, id, message(r), r);
	v->init(k2.pub.get());
	judge(*v, id, sm, false, "a signature under another key", r);
}

// XMSS: the model of each set, and the record of spent one-time keys
struct XSet { XmssParameters p; ref::Xmss m; const char* n; };
#define X(p, s, n, h, d) { XmssParameters::p, ref::Xmss{ s, n, h, d }, #p }
static const std::vector<XSet> FAST = {
	X(XMSSMTSHA2256H20D4, false, 32, 20, 4), X(XMSSMTSHA2256H40D8, false, 32, 40, 8), X(XMSSMTSHA2256H60D12, false, 32, 60, 12),
	X(XMSSMTSHA2512H20D4, false, 64, 20, 4), X(XMSSMTSHA2512H40D8, false, 64, 40, 8), X(XMSSMTSHA2512H60D12, false, 64, 60, 12),
	X(XMSSMTSHAKE256H20D4, true, 32, 20, 4), X(XMSSMTSHAKE256H40D8, true, 32, 40, 8), X(XMSSMTSHAKE256H60D12, true, 32, 60, 12),
	X(XMSSMTSHAKE512H20D4, true, 64, 20, 4), X(XMSSMTSHAKE512H40D8, true, 64, 40, 8), X(XMSSMTSHAKE512H60D12, true, 64, 60, 12) };
static const std::vector<XSet> SLOW = {
	X(XMSSSHA2256H10, false, 32, 10, 1), X(XMSSSHA2512H10, false, 64, 10, 1), X(XMSSSHAKE256H10, true, 32, 10, 1), X(XMSSSHAKE512H10, true, 64, 10, 1),
	X(XMSSMTSHA2256H20D2, false, 32, 20, 2), X(XMSSMTSHA2512H20D2, false, 64, 20, 2), X(XMSSMTSHAKE256H20D2, true, 32, 20, 2), X(XMSSMTSHAKE512H20D2, true, 64, 20, 2),
	X(XMSSMTSHA2256H40D4, false, 32, 40, 4), X(XMSSMTSHAKE256H60D6, true, 32, 60, 6), X(XMSSMTSHA2512H60D6, false, 64, 60, 6), X(XMSSMTSHAKE512H40D4, true, 64, 40, 4) };
#undef X
static std::unique_ptr<SgnT<CXmss, XmssParameters>> xm(const XSet& x, Rng& r) { return std::unique_ptr<SgnT<CXmss, XmssParameters>>(new SgnT<CXmss, XmssParameters>(x.p, AsymmetricPrimitives::XMSS, r.next())); }
static void setIdx(Bytes& sk, const ref::Xmss& m, uint64_t v) { for (size_t i = 0; i < m.idxLen(); ++i) sk[4 + m.idxLen() - 1 - i] = (uint8_t)(v >> (8 * i)); }

// st: watch the history of the private key; otherwise watch what its signatures are worth
static void xmssCase(Rng& r, const XSet& x, int n, bool crafted, bool st = false)
{
	std::string id = std::string("xmss:") + (x.m.d == 1 ? "single" : "tree");
	const ref::Xmss& m = x.m;
	auto s = xm(x, r), v = xm(x, r);
	Keys kp = s->pair();
	Bytes pk = poly(kp.pub), sk = poly(kp.prv);
	if (!expect(pk.size() == 4 + 2 * m.n && sk.size() == 4 + m.idxLen() + 4 * m.n && s->size() == m.sigLen(), id + ":size", "%s: wrong sizes", x.n)) return;
	size_t o = 4 + m.idxLen();
	expect(Bytes(sk.begin() + o + 2 * m.n, sk.end()) == Bytes(pk.begin() + 4, pk.end()) && m.index(sk, 4) == 0, id + ":pair", "%s: the public key is not in the private key", x.n);
	seen("pair " + id + x.n, hash(pk));
	if (!st) states(*s, id, kp, r);
	auto ref = [&](const Bytes& y) { return m.verify(pk, y); };
	const uint64_t last = (1ULL << m.h) - 1;
	const size_t sub = m.h / m.d;
	// history of one private key: indices it has spent
	std::set<uint64_t> spent;
	uint64_t next = 0;
	std::string trace;
	s->init(kp.prv.get());
	v->init(kp.pub.get());
	Bytes sm;
	for (int i = 0; i < n; ++i)
	{
		// the key's owner stores and reloads it, uses another instance, or fails a call in between
		switch (r.below(6))
		{
		case 0: { SecureVector<uint8_t> st = AsymmetricKey::Serialize(*kp.prv); kp.prv.reset(AsymmetricKey::DeSerialize(st)); s->init(kp.prv.get()); trace += "S"; break; }
		case 1: { s = xm(x, r); s->init(kp.prv.get()); trace += "I"; break; }
		case 2: { std::vector<uint8_t> d; outcome([&] { s->sign(Bytes(), d); }); trace += "F"; break; }
		case 3: { s->init(kp.pub.get()); s->init(kp.prv.get()); trace += "P"; break; }
		case 4: if (crafted)
		{
			// move the key forward, to where a subtree or a word of the index ends
			uint64_t to = r.chance(50) ? r.below(last) : ((r.below(last) >> (sub * r.range(1, std::max<size_t>(1, m.d - 1)))) + 1) << (sub * r.range(1, std::max<size_t>(1, m.d - 1)));
			to = to ? to - 1 : 0;
			if (to < next || to > last) break;
			Bytes b = poly(kp.prv);
			setIdx(b, m, to);
			kp.prv = s->prv(b);
			s->init(kp.prv.get());
			next = to;
			trace += "M";
			break;
		}
		default: break;
		}
		Bytes msg = message(r);
		sm = make(*s, id, msg, r);
		trace += ".";
		uint64_t idx = m.index(sm, 0);
		if (st) expect(spent.insert(idx).second, id + ":reuse", "%s: signature %d spent the one-time key %llu again (%s)", x.n, i, (unsigned long long)idx, trace.c_str());
		if (st) expect(idx == next, id + ":index", "%s: signature %d has index %llu, not %llu (%s)", x.n, i, (unsigned long long)idx, (unsigned long long)next, trace.c_str());
		next = idx + 1;
		Bytes now = poly(kp.prv), was = sk;
		setIdx(was, m, m.index(now, 4));
		if (st) expect(m.index(now, 4) == next, id + ":advance", "%s: the private key stays at index %llu after %llu", x.n, (unsigned long long)m.index(now, 4), (unsigned long long)idx);
		if (st) same(id + ":key", now, was, "private key after signing, index apart");
		if (!st) expect(m.verify(pk, sm), id + ":sign", "%s: the model refuses signature %llu (%s)", x.n, (unsigned long long)idx, trace.c_str());
		if (!st) judge(*v, id, sm, true, "its own signature", r);
		seen("spend " + id + x.n, idx);
		if (i == 0 && !st) hostile(*v, id, sm, r, ref, n > 1 ? 6 : 3);
	}
	if (!crafted) return;
	// the last key, and nothing after it
	Bytes b = poly(kp.prv);
	setIdx(b, m, last);
	Key end = s->prv(b);
	s->init(end.get());
	sm = make(*s, id, message(r), r);
	expect(m.index(sm, 0) == last && (st || m.verify(pk, sm)), id + ":last", "%s: the last one-time key", x.n);
	if (!st) judge(*v, id, sm, true, "the last signature", r);
	for (int i = 0; st && i < 2; ++i)
	{
		if (i) { SecureVector<uint8_t> q = AsymmetricKey::Serialize(*end); end.reset(AsymmetricKey::DeSerialize(q)); s->init(end.get()); }
		std::vector<uint8_t> d(r.bytes(s->size() + 30));
		Outcome oc = outcome([&] { s->sign(message(r), d); });
		expect(oc == Threw, id + ":exhausted", "%s: signed past the last one-time key", x.n);
		seen("exhausted " + id + x.n, i);
	}
	// malformed keys
	if (st) return;
	Bytes p2(pk); p2[3] ^= 1;
	Key kx = v->pub(p2);
	outcome([&] { v->init(kx.get()); });
	std::vector<uint8_t> d;
	bool got = false;
	std::string e;
	Outcome oc = outcome([&] { got = v->verify(sm, d); }, &e);
	expect(oc != ThrewForeign && !got, id + ":oid", "%s: verified under a key of another set (%s)", x.n, e.c_str());
}

// keys that do not fit: another scheme's, another class, another size
template<class T, class P> static void keysCase(Rng& r, P par, AsymmetricPrimitives prim, bool sign, const std::string& id)
{
	Known g(r.next());
	T x(par, &g);
	size_t np = x.PublicKeySize(), ns = x.PrivateKeySize();
	auto pubT = sign ? AsymmetricKeyTypes::SignaturePublicKey : AsymmetricKeyTypes::CipherPublicKey;
	auto prvT = sign ? AsymmetricKeyTypes::SignaturePrivateKey : AsymmetricKeyTypes::CipherPrivateKey;
	auto tryKey = [&](Key k, const char* what) {
		T y(par, &g);
		std::string e;
		Outcome o = outcome([&] { y.Initialize(k.get()); }, &e);
		expect(o == Threw, id + ":" + what, "%s: Initialize took a key %s", y.Name().c_str(), what);
		seen("key " + id + what, hash(poly(k)));
	};
	auto other = prim == AsymmetricPrimitives::Kyber ? AsymmetricPrimitives::McEliece : AsymmetricPrimitives::Kyber;
	tryKey(key(r.bytes(np), other, pubT, (int)par), "of another scheme");
	tryKey(key(r.bytes(ns), prim, sign ? AsymmetricKeyTypes::CipherPrivateKey : AsymmetricKeyTypes::SignaturePrivateKey, (int)par), "of another class");
	for (size_t n : { (size_t)1, np - 1, np + 1, (size_t)r.range(1, np - 1) }) tryKey(key(r.bytes(n), prim, pubT, (int)par), "of wrong size");
	for (size_t n : { (size_t)1, ns - 1, ns + 1, (size_t)r.range(1, ns - 1) }) tryKey(key(r.bytes(n), prim, prvT, (int)par), "of wrong size");
	tryKey(key(r.bytes(np), prim, pubT, 0xF0), "of unknown parameters");
}

void cases()
{
	if (part("kyber"))
		for (size_t i = 0; i < reps(6, 60); ++i) for (int k = 2; k <= 5; ++k) run(strf("kyber#%d-%zu", k, i), [k](Rng& r) { kyberCase(r, k); });
	if (part("mceliece"))
		for (size_t i = 0; i < reps(2, 12); ++i) for (int p = 0; p < 4; ++p) run(strf("mceliece#%d-%zu", p, i), [p](Rng& r) { mcCase(r, p); });
	if (part("ecdh"))
		for (size_t i = 0; i < reps(40, 600); ++i) for (bool s : { true, false }) run(strf("ecdh#%d-%zu", s, i), [s](Rng& r) { ecdhCase(r, s); });
	if (part("dilithium"))
		for (size_t i = 0; i < reps(6, 60); ++i) for (int l : { 2, 3, 5 }) run(strf("dilithium#%d-%zu", l, i), [l](Rng& r) { dilithiumCase(r, l); });
	if (part("ecdsa"))
		for (size_t i = 0; i < reps(20, 300); ++i) for (bool s : { true, false }) run(strf("ecdsa#%d-%zu", s, i), [s](Rng& r) { ecdsaCase(r, s); });
	if (part("sphincs"))
		for (size_t i = 0; i < reps(1, 8); ++i) for (int l : { 1, 3, 5, 6 }) run(strf("sphincs#%d-%zu", l, i), [l](Rng& r) { sphincsCase(r, l, 1); });
	if (part("xmss"))
		for (size_t i = 0; i < reps(1, 6); ++i) for (auto& x : FAST) run(strf("xmss#%s-%zu", x.n, i), [&x](Rng& r) { xmssCase(r, x, 6, true); });
	if (part("xmss-state"))
		for (size_t i = 0; i < reps(1, 6); ++i) for (auto& x : FAST) run(strf("xmss-state#%s-%zu", x.n, i), [&x](Rng& r) { xmssCase(r, x, 8, true, true); });
	if (part("xmss-slow"))
		for (size_t i = 0; i < reps(1, 2); ++i) for (auto& x : SLOW) run(strf("xmss-slow#%s-%zu", x.n, i), [&x](Rng& r) { xmssCase(r, x, 2, cfg.thorough); });
	if (part("keys"))
		for (size_t i = 0; i < reps(2, 20); ++i)
		{
			for (auto p : { KyberParameters::KYBERS1P1632, KyberParameters::KYBERS3P2400, KyberParameters::KYBERS5P3168, KyberParameters::KYBERS6P3936 })
				run(strf("keys#kyber%d-%zu", (int)p, i), [p](Rng& r) { keysCase<CKyber>(r, p, AsymmetricPrimitives::Kyber, false, "keys:kyber"); });
			for (auto p : MP) run(strf("keys#mceliece%d-%zu", (int)p, i), [p](Rng& r) { keysCase<CMcEliece>(r, p, AsymmetricPrimitives::McEliece, false, "keys:mceliece"); });
			for (auto p : { DilithiumParameters::DLTMS1P2544, DilithiumParameters::DLTMS3P4016, DilithiumParameters::DLTMS5P4880 })
				run(strf("keys#dilithium%d-%zu", (int)p, i), [p](Rng& r) { keysCase<CDilithium>(r, p, AsymmetricPrimitives::Dilithium, true, "keys:dilithium"); });
			for (auto p : { SphincsPlusParameters::SPXPS1S128SHAKE, SphincsPlusParameters::SPXPS3S192SHAKE, SphincsPlusParameters::SPXPS5S256SHAKE, SphincsPlusParameters::SPXPS6S512SHAKE })
				run(strf("keys#sphincs%d-%zu", (int)p, i), [p](Rng& r) { keysCase<CSphincs>(r, p, AsymmetricPrimitives::SphincsPlus, true, "keys:sphincs"); });
			for (auto p : { ECDSAParameters::ECDSAS1P25519K, ECDSAParameters::ECDSAS2P25519S })
				run(strf("keys#ecdsa%d-%zu", (int)p, i), [p](Rng& r) { keysCase<CEcdsa>(r, p, AsymmetricPrimitives::ECDSA, true, "keys:ecdsa"); });
			for (auto& x : FAST) run(strf("keys#%s-%zu", x.n, i), [&x](Rng& r) { keysCase<CXmss>(r, x.p, AsymmetricPrimitives::XMSS, true, "keys:xmss"); });
		}
}
