// Reference models of the post-quantum schemes, written from their specifications (schoolbook
// polynomial arithmetic, no tables), sharing no code with the library.
#pragma once
#include "ref.h"
namespace ref
{
	// ---- Kyber (round 3), k = 2..5 ----
	struct Kyber
	{
		int k, eta1, du, dv;
		explicit Kyber(int k) : k(k), eta1(k == 2 ? 3 : 2), du(k < 4 ? 10 : 11), dv(k < 4 ? 4 : 5) {}
		size_t pkLen() const { return 384 * k + 32; }
		size_t skLen() const { return 768 * k + 96; }
		size_t ctLen() const { return 32 * (du * k + dv); }
		// empty when the pair is a well-formed key pair, otherwise what is wrong with it
		std::string pair(const Bytes& pk, const Bytes& sk) const;
		Bytes encrypt(const Bytes& pk, const Bytes& m, const Bytes& coins) const;
		Bytes decrypt(const Bytes& sk, const Bytes& ct) const;
		// the shared secret; valid tells whether the ciphertext is the encryption of what it decrypts to
		Bytes decaps(const Bytes& sk, const Bytes& ct, bool& valid) const;
		// the ciphertext and secret for a given 32-byte random input
		Bytes encaps(const Bytes& pk, const Bytes& seed, Bytes& secret) const;
	};

	// ---- Dilithium (round 3) ----
	struct Dilithium
	{
		int K, L, eta, tau, beta, omega; int32_t gamma1, gamma2;
		explicit Dilithium(int level);
		size_t zLen() const { return gamma1 == (1 << 17) ? 576 : 640; }
		size_t etaLen() const { return eta == 2 ? 96 : 128; }
		size_t pkLen() const { return 32 + 320 * K; }
		size_t skLen() const { return 112 + etaLen() * (K + L) + 416 * K; }
		size_t sigLen() const { return 32 + L * zLen() + omega + K; }
		// signature followed by the message
		bool verify(const Bytes& pk, const Bytes& sm, bool normCheck = true) const;
		// the deterministic signature; with big: one that satisfies the verification equation but whose response is over the bound
		Bytes sign(const Bytes& sk, const Bytes& m, bool big, vh::Rng* r = nullptr) const;
		std::string pair(const Bytes& pk, const Bytes& sk) const;
	};

	// ---- SPHINCS+ (round 3, SHAKE-256, robust) ----
	struct Sphincs
	{
		size_t n, h, d, a, kk; size_t rate;
		explicit Sphincs(int level);
		size_t wlen() const { return 2 * n + 3; }
		size_t sigLen() const { return n * (1 + kk * (a + 1) + d * wlen() + h); }
		bool verify(const Bytes& pk, const Bytes& sm) const;
		Bytes root(const Bytes& skSeed, const Bytes& pkSeed) const;
	};

	// ---- XMSS, XMSS^MT (RFC 8391 layout; keys carry a 4-byte identifier) ----
	struct Xmss
	{
		bool shake; size_t n, h, d;
		size_t idxLen() const { return d == 1 ? 4 : (h + 7) / 8; }
		size_t wlen() const { return 2 * n + 3; }
		size_t sigLen() const { return idxLen() + n + d * wlen() * n + h * n; }
		bool verify(const Bytes& pk, const Bytes& sm) const;
		uint64_t index(const Bytes& b, size_t off) const { uint64_t v = 0; for (size_t i = 0; i < idxLen(); ++i) v = v << 8 | b[off + i]; return v; }
		Bytes hash(const Bytes& m) const;
	};
}
