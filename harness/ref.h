// Independent reference models the oracles compare against: written from the published definitions
// (and, for the project's own constructions, from its documentation), sharing no code with the library.
#pragma once
#include "h.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <openssl/err.h>

namespace ref
{
	using vh::Bytes;
	inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
	inline Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }
	inline Bytes sub(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
	inline void le(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back((uint8_t)(v >> (8 * i))); }
	inline void be(Bytes& b, uint64_t v, int n) { for (int i = n; i-- > 0;) b.push_back((uint8_t)(i < 8 ? v >> (8 * i) : 0)); }
	inline Bytes leb(uint64_t v, int n) { Bytes b; le(b, v, n); return b; }
	inline Bytes beb(uint64_t v, int n) { Bytes b; be(b, v, n); return b; }
	inline uint32_t rotl32(uint32_t x, int n) { return n ? x << n | x >> (32 - n) : x; }
	inline uint64_t rotl64(uint64_t x, int n) { return n ? x << n | x >> (64 - n) : x; }
	inline uint32_t ldle32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
	inline uint64_t ldle64(const uint8_t* p) { return ldle32(p) | (uint64_t)ldle32(p + 4) << 32; }
	inline void stle32(uint8_t* p, uint32_t v) { for (int i = 0; i < 4; ++i) p[i] = (uint8_t)(v >> (8 * i)); }
	inline void stle64(uint8_t* p, uint64_t v) { for (int i = 0; i < 8; ++i) p[i] = (uint8_t)(v >> (8 * i)); }

	// ---- Keccak ----
	void keccakP(uint64_t s[25], int rounds = 24);
	// sponge over whole messages: rate in bytes, domain byte already carrying the first padding bit
	struct Sponge
	{
		uint64_t s[25]; size_t rate, pos; int rounds; bool squeezing;
		Sponge(size_t rate, int rounds = 24);
		void absorb(const Bytes& b);
		void padTo();                       // zero-fill to a block boundary (bytepad)
		void finish(uint8_t domain);
		Bytes squeeze(size_t n);
	};
	Bytes sha3(size_t rate, size_t out, const Bytes& m);
	Bytes shake(size_t rate, const Bytes& m, size_t out, int rounds = 24);
	Bytes leftEncode(uint64_t v);
	Bytes rightEncode(uint64_t v);
	Bytes cshake(size_t rate, const Bytes& m, const Bytes& name, const Bytes& custom, size_t out, int rounds = 24);
	Bytes kmac(size_t rate, const Bytes& key, const Bytes& m, const Bytes& custom, size_t out);

	// ---- SHA-2 based, through OpenSSL ----
	Bytes sha2(int bits, const Bytes& m);
	Bytes hmac(int bits, const Bytes& key, const Bytes& m);
	Bytes hkdfExtract(int bits, const Bytes& salt, const Bytes& key);
	Bytes hkdfExpand(int bits, const Bytes& prk, const Bytes& info, size_t out);

	// ---- block ciphers ----
	// Rijndael with Nb columns (4: AES, 8: 256-bit block, 16: the project's 512-bit block)
	struct Rijndael
	{
		int nb, rounds; std::vector<Bytes> rk;
		static uint8_t sbox(uint8_t x);
		static uint8_t mul(uint8_t a, uint8_t b);
		void encrypt(const uint8_t* in, uint8_t* out) const;
		void decrypt(const uint8_t* in, uint8_t* out) const;
		void shifts(int sh[4]) const;
	};
	Rijndael aes(const Bytes& key);
	struct Serpent
	{
		int rounds; std::vector<uint32_t> rk;
		void encrypt(const uint8_t* in, uint8_t* out) const;
		void decrypt(const uint8_t* in, uint8_t* out) const;
	};
	Serpent serpent(const Bytes& key);
	// the project's extended ciphers: ext is the name of the key expansion function
	enum Ext { None, HKDF256, HKDF512, SHAKE256, SHAKE512 };
	struct Block
	{
		bool isAes; Rijndael r; Serpent s;
		void encrypt(const uint8_t* i, uint8_t* o) const { if (isAes) r.encrypt(i, o); else s.encrypt(i, o); }
		void decrypt(const uint8_t* i, uint8_t* o) const { if (isAes) r.decrypt(i, o); else s.decrypt(i, o); }
	};
	Block block(bool isAes, Ext e, const Bytes& key, const Bytes& info);
	Bytes ctr(const Block& b, const Bytes& iv, const Bytes& in, bool littleEndian);
	Bytes ecb(const Block& b, bool enc, const Bytes& in);
	Bytes cbc(const Block& b, bool enc, const Bytes& iv, const Bytes& in);
	Bytes cfb(const Block& b, bool enc, const Bytes& iv, const Bytes& in, size_t reg);
	Bytes ofb(const Block& b, const Bytes& iv, const Bytes& in);
	// ciphertext and tag (16 bytes)
	void ghashMul(uint8_t x[16], const uint8_t h[16]);
	Bytes gcm(const Block& b, bool enc, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes& tag);
	Bytes gmac(const Block& b, const Bytes& iv, const Bytes& in);
	Bytes cmac(const Block& b, const Bytes& in);
	Bytes poly1305(const Bytes& key, const Bytes& in);

	// ---- Threefish, Skein (sequential), BLAKE2 ----
	// words: 4, 8 or 16; encrypts one block in place
	void threefish(const std::vector<uint64_t>& key, uint64_t t0, uint64_t t1, std::vector<uint64_t>& x, int rounds, int last = -1);
	struct Ubi
	{
		std::vector<uint64_t> G; uint64_t t0 = 0, t1 = 0;
		explicit Ubi(size_t bytes) : G(bytes / 8) {}
		size_t bs() const { return G.size() * 8; }
		void start(int type) { t0 = 0; t1 = (uint64_t)type << 56 | 1ULL << 62; }
		void block(const Bytes& b, size_t n, bool last);
		void message(int type, const Bytes& m);
		Bytes out() const;
	};
	struct SkeinStream { Ubi u; Bytes held; explicit SkeinStream(size_t bytes); void update(const Bytes& m); Bytes finish(); };
	Bytes skein(size_t bytes, const Bytes& m);
	Bytes skeinTree(size_t bytes, size_t lanes, const Bytes& m, size_t leafSize, size_t fanout);
	Bytes skeinTree(size_t bytes, size_t lanes, const Bytes& m, const Bytes& config);
	// BLAKE2 with an arbitrary parameter block (32 bytes: 2s, 64: 2b) and a finalisation flag for the last node
	Bytes blake2(bool b, const Bytes& param, const Bytes& m, bool lastNode);
	Bytes blake2seq(bool b, const Bytes& key, const Bytes& salt, const Bytes& pers, const Bytes& m);
	Bytes blake2tree(bool b, size_t lanes, const Bytes& key, const Bytes& m);
	Bytes blake2tree(bool b, size_t lanes, const Bytes& key, const Bytes& m, Bytes param);
	// the project's tree modes over SHA-2 and SHA-3
	Bytes sha2Tree(int bits, size_t lanes, const Bytes& m, size_t fanout);
	Bytes sha3Tree(size_t rate, size_t lanes, const Bytes& m, size_t fanout);
	// with the parameter block given, as it is serialised
	Bytes sha2Tree(int bits, size_t lanes, const Bytes& m, const Bytes& param);
	Bytes sha3Tree(size_t rate, size_t lanes, const Bytes& m, const Bytes& param);
	// the project's 8-lane 12-round Keccak MAC
	Bytes kpa(const Bytes& key, const Bytes& custom, const Bytes& m, size_t out);
	// KMAC with any function name; cSHAKE as the project computes it (no shortcut for empty strings)
	Bytes kmacN(size_t rate, const Bytes& key, const Bytes& m, const Bytes& name, const Bytes& custom, size_t out, int rounds = 24);
	Bytes cshakeRaw(size_t rate, const Bytes& m, const Bytes& name, const Bytes& custom, size_t out, int rounds = 24);
	// ---- key derivation ----
	Bytes kdf2(int bits, const Bytes& key, const Bytes& iv, const Bytes& info, size_t out);
	Bytes pbkdf2(int bits, const Bytes& key, const Bytes& salt, uint32_t iterations, size_t out);
	Bytes shakeKdf(size_t rate, const Bytes& key, const Bytes& custom, const Bytes& info, size_t out);
	struct Scbkdf
	{
		uint64_t s[25]; size_t rate, cpu, mem; Bytes cache;
		Scbkdf(size_t rate, const Bytes& key, const Bytes& custom, const Bytes& info, size_t cpuCost, size_t memMb);
		void absorb(const Bytes& b);
		Bytes generate(size_t n);
	};
	// ---- stream ciphers: each call starts on a new block of the key stream ----
	enum StreamKind { CHACHA, CSX, TSX256, TSX512, TSX1024, RCS, RWS };
	struct StreamDef { StreamKind k; size_t key, iv, info, ctrLen, block; const char* name; const char* authName; };
	const StreamDef& streamDef(StreamKind k);
	struct Stream
	{
		StreamKind k; Bytes key, ctr, code; Rijndael r;
		uint64_t macCounter = 0;            // message bytes (with the cipher's initial value)
		Bytes macKey; size_t macRate = 0, tagLen = 0; std::string name;
		Stream(StreamKind k, bool auth, const Bytes& key, const Bytes& iv, const Bytes& info);
		Bytes process(const Bytes& in);
		// the tag over associated data and ciphertext, with the counter the ciphertext started at
		Bytes tag(const std::vector<Bytes>& aad, const Bytes& start, const Bytes& ct);
	};
	// ---- HBA: encrypt-then-MAC with a ratcheted MAC key ----
	enum HbaAuth { AHMAC256, AHMAC512, AKMAC256, AKMAC512, APOLY };
	struct Hba
	{
		bool isAes; Ext e; HbaAuth a; Block b; Bytes ctr, custom, nm, macKey, pending; uint64_t counter = 1; int digest = 0; size_t rate = 0;
		Hba(bool isAes, Ext e, const std::string& cipher, HbaAuth a, const Bytes& key, const Bytes& iv, const Bytes& info);
		void aad(const Bytes& d);
		Bytes seal(const Bytes& m, Bytes& tag);
	};
}
