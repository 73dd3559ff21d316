#include "ref_pq.h"
namespace ref
{
	namespace
	{
		const int Q = 3329;
		typedef std::vector<int> Poly;      // 256 coefficients in [0, Q)
		typedef std::vector<Poly> Vec;
		int mod(int64_t x) { int64_t r = x % Q; return (int)(r < 0 ? r + Q : r); }
		int powm(int b, int e) { int64_t r = 1, x = b; for (; e; e >>= 1, x = x * x % Q) if (e & 1) r = r * x % Q; return (int)r; }
		int brv7(int x) { int r = 0; for (int i = 0; i < 7; ++i) r |= ((x >> i) & 1) << (6 - i); return r; }
		// the residues modulo X^2 - 17^(2 brv(i) + 1)
		int gen(int i) { return powm(17, 2 * brv7(i) + 1); }
		Poly ntt(const Poly& f)
		{
			Poly r(256);
			for (int i = 0; i < 128; ++i)
			{
				int64_t g = gen(i), p = 1, a = 0, b = 0;
				for (int j = 0; j < 128; ++j) { a += f[2 * j] * p; b += f[2 * j + 1] * p; p = p * g % Q; }
				r[2 * i] = mod(a); r[2 * i + 1] = mod(b);
			}
			return r;
		}
		Poly intt(const Poly& f)
		{
			Poly r(256); std::vector<int64_t> a(256, 0); int inv = powm(128, Q - 2);
			for (int i = 0; i < 128; ++i)
			{
				int64_t g = powm(gen(i), Q - 2), p = 1;
				for (int j = 0; j < 128; ++j) { a[2 * j] += f[2 * i] * p; a[2 * j + 1] += f[2 * i + 1] * p; p = p * g % Q; }
			}
			for (int j = 0; j < 256; ++j) r[j] = mod(a[j] % Q * inv);
			return r;
		}
		Poly mulHat(const Poly& a, const Poly& b)
		{
			Poly r(256);
			for (int i = 0; i < 128; ++i)
			{
				int64_t g = gen(i);
				r[2 * i] = mod((int64_t)a[2 * i] * b[2 * i] + (int64_t)a[2 * i + 1] * b[2 * i + 1] % Q * g);
				r[2 * i + 1] = mod((int64_t)a[2 * i] * b[2 * i + 1] + (int64_t)a[2 * i + 1] * b[2 * i]);
			}
			return r;
		}
		Poly add(const Poly& a, const Poly& b) { Poly r(256); for (int i = 0; i < 256; ++i) r[i] = mod(a[i] + b[i]); return r; }
		Poly neg(const Poly& a, const Poly& b) { Poly r(256); for (int i = 0; i < 256; ++i) r[i] = mod(a[i] - b[i]); return r; }
		Poly dotHat(const Vec& a, const Vec& b) { Poly r(256); for (size_t i = 0; i < a.size(); ++i) r = add(r, mulHat(a[i], b[i])); return r; }
		// d-bit little-endian fields
		std::vector<int> bitsOf(const uint8_t* p, int d) { std::vector<int> r(256); for (int i = 0; i < 256; ++i) for (int j = 0; j < d; ++j) { int b = i * d + j; r[i] |= ((p[b / 8] >> (b % 8)) & 1) << j; } return r; }
		void putBits(Bytes& out, const std::vector<int>& v, int d) { Bytes r(32 * d); for (int i = 0; i < 256; ++i) for (int j = 0; j < d; ++j) if ((v[i] >> j) & 1) { int b = i * d + j; r[b / 8] |= 1 << (b % 8); } out.insert(out.end(), r.begin(), r.end()); }
		Poly cbd(int eta, const Bytes& seed, uint8_t nonce)
		{
			Bytes b = shake(136, cat({ seed, Bytes{ nonce } }), 64 * eta); Poly r(256);
			auto bit = [&](int i) { return (b[i / 8] >> (i % 8)) & 1; };
			for (int i = 0; i < 256; ++i) { int x = 0; for (int j = 0; j < eta; ++j) x += bit(2 * i * eta + j) - bit(2 * i * eta + eta + j); r[i] = mod(x); }
			return r;
		}
		// A[i][j] in the transformed domain
		Poly matrix(const Bytes& rho, int i, int j)
		{
			Sponge s(168); s.absorb(cat({ rho, Bytes{ (uint8_t)j, (uint8_t)i } })); s.finish(0x1F);
			Poly r; 
			while (r.size() < 256) { Bytes b = s.squeeze(168); for (size_t t = 0; t + 3 <= b.size() && r.size() < 256; t += 3) { int d1 = b[t] | (b[t + 1] & 15) << 8, d2 = b[t + 1] >> 4 | b[t + 2] << 4; if (d1 < Q) r.push_back(d1); if (d2 < Q && r.size() < 256) r.push_back(d2); } }
			return r;
		}
		int centred(int x) { return x > Q / 2 ? x - Q : x; }
		Vec unpack(const Bytes& b, size_t off, int k) { Vec v; for (int i = 0; i < k; ++i) { Poly p = bitsOf(b.data() + off + 384 * i, 12); for (auto& c : p) c = mod(c); v.push_back(p); } return v; }
		Bytes H(const Bytes& b) { return sha3(136, 32, b); }
		Bytes G(const Bytes& b) { return sha3(72, 64, b); }
	}

	std::string Kyber::pair(const Bytes& pk, const Bytes& sk) const
	{
		if (pk.size() != pkLen()) return "public key size"; 
		if (sk.size() != skLen()) return "private key size";
		if (sub(sk, 384 * k, pk.size()) != pk) return "the private key does not carry the public key";
		if (sub(sk, 768 * k + 32, 32) != H(pk)) return "the private key does not carry the hash of the public key";
		for (int i = 0; i < k; ++i) for (int x : bitsOf(pk.data() + 384 * i, 12)) if (x >= Q) return "public coefficient out of range";
		for (int i = 0; i < k; ++i) for (int x : bitsOf(sk.data() + 384 * i, 12)) if (x >= Q) return "private coefficient out of range";
		Vec s = unpack(sk, 0, k), t = unpack(pk, 0, k); Bytes rho = sub(pk, 384 * k, 32); bool nonzero = false;
		for (int i = 0; i < k; ++i)
		{
			Vec row; for (int j = 0; j < k; ++j) row.push_back(matrix(rho, i, j));
			for (int x : intt(neg(t[i], dotHat(row, s)))) { if (std::abs(centred(x)) > eta1) return "the public key is not A s + e with a small e"; if (x) nonzero = true; }
			for (int x : intt(s[i])) if (std::abs(centred(x)) > eta1) return "the secret vector is not small";
		}
		return nonzero ? "" : "the error vector is zero";
	}
	Bytes Kyber::encrypt(const Bytes& pk, const Bytes& m, const Bytes& coins) const
	{
		Vec t = unpack(pk, 0, k), r, e1; Bytes rho = sub(pk, 384 * k, 32), out; uint8_t n = 0;
		for (int i = 0; i < k; ++i) r.push_back(ntt(cbd(eta1, coins, n++)));
		for (int i = 0; i < k; ++i) e1.push_back(cbd(2, coins, n++));
		Poly e2 = cbd(2, coins, n);
		for (int i = 0; i < k; ++i)
		{
			Vec col; for (int j = 0; j < k; ++j) col.push_back(matrix(rho, j, i));
			Poly u = add(intt(dotHat(col, r)), e1[i]); std::vector<int> c(256);
			for (int x = 0; x < 256; ++x) c[x] = (int)((((int64_t)u[x] << du) + Q / 2) / Q & ((1 << du) - 1));
			putBits(out, c, du);
		}
		Poly v = add(intt(dotHat(t, r)), e2); std::vector<int> c(256);
		for (int x = 0; x < 256; ++x) { int b = (m[x / 8] >> (x % 8)) & 1; int y = mod(v[x] + b * ((Q + 1) / 2)); c[x] = ((y << dv) + Q / 2) / Q & ((1 << dv) - 1); }
		putBits(out, c, dv);
		return out;
	}
	Bytes Kyber::decrypt(const Bytes& sk, const Bytes& ct) const
	{
		Vec s = unpack(sk, 0, k), u;
		for (int i = 0; i < k; ++i) { Poly p = bitsOf(ct.data() + 32 * du * i, du); for (auto& x : p) x = (int)(((int64_t)x * Q + (1 << (du - 1))) >> du); u.push_back(ntt(p)); }
		Poly v = bitsOf(ct.data() + 32 * du * k, dv); for (auto& x : v) x = (x * Q + (1 << (dv - 1))) >> dv;
		Poly w = neg(v, intt(dotHat(s, u))); Bytes m(32);
		for (int x = 0; x < 256; ++x) if ((((w[x] << 1) + Q / 2) / Q) & 1) m[x / 8] |= 1 << (x % 8);
		return m;
	}
	Bytes Kyber::decaps(const Bytes& sk, const Bytes& ct, bool& valid) const
	{
		Bytes m = decrypt(sk, ct), pk = sub(sk, 384 * k, pkLen()), kr = G(cat({ m, sub(sk, 768 * k + 32, 32) }));
		valid = encrypt(pk, m, sub(kr, 32, 32)) == ct;
		return shake(136, cat({ valid ? sub(kr, 0, 32) : sub(sk, 768 * k + 64, 32), H(ct) }), 32);
	}
	Bytes Kyber::encaps(const Bytes& pk, const Bytes& seed, Bytes& secret) const
	{
		Bytes m = H(seed), kr = G(cat({ m, H(pk) })), ct = encrypt(pk, m, sub(kr, 32, 32));
		secret = shake(136, cat({ sub(kr, 0, 32), H(ct) }), 32);
		return ct;
	}
}
