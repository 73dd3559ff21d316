#include "ref_pq.h"
namespace ref
{
	namespace
	{
		const int64_t Q = 8380417;
		typedef std::vector<int64_t> Poly;  // 256 coefficients in [0, Q)
		typedef std::vector<Poly> Vec;
		int64_t mod(int64_t x) { x %= Q; return x < 0 ? x + Q : x; }
		int64_t powm(int64_t b, int64_t e) { int64_t r = 1; for (; e; e >>= 1, b = b * b % Q) if (e & 1) r = r * b % Q; return r; }
		int brv8(int x) { int r = 0; for (int i = 0; i < 8; ++i) r |= ((x >> i) & 1) << (7 - i); return r; }
		// values at the 256 roots 1753^(2 brv(i) + 1)
		std::vector<int64_t> roots() { std::vector<int64_t> r; for (int i = 0; i < 256; ++i) r.push_back(powm(1753, 2 * brv8(i) + 1)); return r; }
		const std::vector<int64_t>& rt() { static const std::vector<int64_t> r = roots(); return r; }
		Poly eval(const Poly& f) { Poly r(256); for (int i = 0; i < 256; ++i) { int64_t x = 0, g = rt()[i]; for (int j = 255; j >= 0; --j) x = (x * g + f[j]) % Q; r[i] = x; } return r; }
		Poly interp(const Poly& v)
		{
			Poly r(256), a = v; int64_t inv = powm(256, Q - 2); std::vector<int64_t> ig(256), p(256, 1);
			for (int i = 0; i < 256; ++i) ig[i] = powm(rt()[i], Q - 2);
			for (int j = 0; j < 256; ++j) { int64_t s = 0; for (int i = 0; i < 256; ++i) { s += v[i] * p[i] % Q; p[i] = p[i] * ig[i] % Q; } r[j] = s % Q * inv % Q; }
			return r;
		}
		Poly pw(const Poly& a, const Poly& b) { Poly r(256); for (int i = 0; i < 256; ++i) r[i] = a[i] * b[i] % Q; return r; }
		Poly add(const Poly& a, const Poly& b) { Poly r(256); for (int i = 0; i < 256; ++i) r[i] = mod(a[i] + b[i]); return r; }
		Poly sub_(const Poly& a, const Poly& b) { Poly r(256); for (int i = 0; i < 256; ++i) r[i] = mod(a[i] - b[i]); return r; }
		int64_t centred(int64_t x) { return x > Q / 2 ? x - Q : x; }
		int64_t norm(const Poly& p) { int64_t m = 0; for (auto x : p) m = std::max<int64_t>(m, std::llabs(centred(x))); return m; }
		Bytes crh(const Bytes& b, size_t n = 48) { return shake(136, b, n); }
		Poly matrix(const Bytes& rho, int i, int j)
		{
			Sponge s(168); s.absorb(cat({ rho, Bytes{ (uint8_t)j, (uint8_t)i } })); s.finish(0x1F); Poly r;
			while (r.size() < 256) { Bytes b = s.squeeze(3); int64_t t = (b[0] | b[1] << 8 | b[2] << 16) & 0x7FFFFF; if (t < Q) r.push_back(t); }
			return r;
		}
		std::vector<int> bitsOf(const uint8_t* p, int d) { std::vector<int> r(256); for (int i = 0; i < 256; ++i) for (int j = 0; j < d; ++j) { int b = i * d + j; r[i] |= ((p[b / 8] >> (b % 8)) & 1) << j; } return r; }
		void putBits(Bytes& out, const std::vector<int>& v, int d) { Bytes r(32 * d); for (int i = 0; i < 256; ++i) for (int j = 0; j < d; ++j) if ((v[i] >> j) & 1) { int b = i * d + j; r[b / 8] |= 1 << (b % 8); } out.insert(out.end(), r.begin(), r.end()); }
		Poly field(const Bytes& b, size_t off, int d, int64_t base) { Poly p; for (int x : bitsOf(b.data() + off, d)) p.push_back(mod(base - x)); return p; }
		Poly challenge(const Bytes& seed, int tau)
		{
			Sponge s(136); s.absorb(seed); s.finish(0x1F); Bytes b = s.squeeze(8); uint64_t signs = ldle64(b.data()); Poly c(256);
			for (int i = 256 - tau; i < 256; ++i) { int j; do j = s.squeeze(1)[0]; while (j > i); c[i] = c[j]; c[j] = signs & 1 ? Q - 1 : 1; signs >>= 1; }
			return c;
		}
		// r = r1 * 2 gamma2 + r0
		void decompose(int64_t r, int64_t g2, int64_t& r1, int64_t& r0)
		{
			int64_t a = 2 * g2; r0 = r % a; if (r0 > g2) r0 -= a;
			if (r - r0 == Q - 1) { r1 = 0; r0 -= 1; } else r1 = (r - r0) / a;
		}
		int64_t useHint(int h, int64_t r, int64_t g2)
		{
			int64_t m = (Q - 1) / (2 * g2), r1, r0; decompose(r, g2, r1, r0);
			if (!h) return r1;
			return r0 > 0 ? (r1 + 1) % m : (r1 + m - 1) % m;
		}
	}
	Dilithium::Dilithium(int level)
	{
		K = level == 2 ? 4 : level == 3 ? 6 : 8; L = level == 2 ? 4 : level == 3 ? 5 : 7; eta = level == 3 ? 4 : 2;
		tau = level == 2 ? 39 : level == 3 ? 49 : 60; beta = tau * eta; omega = level == 2 ? 80 : level == 3 ? 55 : 75;
		gamma1 = level == 2 ? 1 << 17 : 1 << 19; gamma2 = (int32_t)(level == 2 ? (Q - 1) / 88 : (Q - 1) / 32);
	}
	bool Dilithium::verify(const Bytes& pk, const Bytes& sm, bool normCheck) const
	{
		if (sm.size() < sigLen() || pk.size() != pkLen()) return false;
		Bytes c0 = sub(sm, 0, 32), msg = sub(sm, sigLen(), sm.size() - sigLen()), rho = sub(pk, 0, 32); size_t off = 32; Vec z;
		int zb = gamma1 == 1 << 17 ? 18 : 20;
		for (int i = 0; i < L; ++i, off += zLen()) { z.push_back(field(sm, off, zb, gamma1)); if (normCheck && norm(z[i]) >= gamma1 - beta) return false; }
		std::vector<std::vector<int>> h(K, std::vector<int>(256)); int pos = 0;
		for (int i = 0; i < K; ++i)
		{
			int end = sm[off + omega + i]; if (end < pos || end > omega) return false;
			for (int j = pos; j < end; ++j) { if (j > pos && sm[off + j] <= sm[off + j - 1]) return false; h[i][sm[off + j]] = 1; }
			pos = end;
		}
		for (int j = pos; j < omega; ++j) if (sm[off + j]) return false;
		Poly c = eval(challenge(c0, tau)); for (auto& p : z) p = eval(p);
		Bytes w;
		for (int i = 0; i < K; ++i)
		{
			Poly t; for (int x : bitsOf(pk.data() + 32 + 320 * i, 10)) t.push_back((int64_t)x << 13);
			Poly a(256); for (int j = 0; j < L; ++j) a = add(a, pw(matrix(rho, i, j), z[j]));
			a = interp(sub_(a, pw(c, eval(t)))); std::vector<int> w1;
			for (int x = 0; x < 256; ++x) w1.push_back((int)useHint(h[i][x], a[x], gamma2));
			putBits(w, w1, gamma2 == (Q - 1) / 88 ? 6 : 4);
		}
		return crh(cat({ crh(cat({ crh(pk), msg })), w }), 32) == c0;
	}
	Bytes Dilithium::sign(const Bytes& sk, const Bytes& m, bool big, vh::Rng* rng) const
	{
		Bytes rho = sub(sk, 0, 32), key = sub(sk, 32, 32), tr = sub(sk, 64, 48), mu = crh(cat({ tr, m })), rp = crh(cat({ key, mu }));
		size_t off = 112; int eb = eta == 2 ? 3 : 4, zb = gamma1 == 1 << 17 ? 18 : 20; Vec s1, s2, t0;
		for (int i = 0; i < L; ++i, off += etaLen()) s1.push_back(eval(field(sk, off, eb, eta)));
		for (int i = 0; i < K; ++i, off += etaLen()) s2.push_back(eval(field(sk, off, eb, eta)));
		for (int i = 0; i < K; ++i, off += 416) t0.push_back(eval(field(sk, off, 13, 1 << 12)));
		std::vector<Vec> A(K); for (int i = 0; i < K; ++i) for (int j = 0; j < L; ++j) A[i].push_back(matrix(rho, i, j));
		for (int nonce = 0;; nonce += L)
		{
			Vec y, yh;
			for (int i = 0; i < L; ++i)
			{
				y.push_back(field(shake(136, cat({ rp, leb(nonce + i, 2) }), zLen()), 0, zb, gamma1));
				if (big && i == (int)rng->below(L)) y[i][rng->below(256)] = mod(rng->chance(50) ? gamma1 - (int64_t)rng->below(beta / 2) : -gamma1 + 1 + (int64_t)rng->below(beta / 2));
				yh.push_back(eval(y[i]));
			}
			std::vector<Poly> w1(K, Poly(256)), w(K); Bytes pack;
			for (int i = 0; i < K; ++i)
			{
				Poly a(256); for (int j = 0; j < L; ++j) a = add(a, pw(A[i][j], yh[j]));
				w[i] = interp(a); std::vector<int> v; int64_t r0;
				for (int x = 0; x < 256; ++x) { decompose(w[i][x], gamma2, w1[i][x], r0); v.push_back((int)w1[i][x]); }
				putBits(pack, v, gamma2 == (Q - 1) / 88 ? 6 : 4);
			}
			Bytes c0 = crh(cat({ mu, pack }), 32); Poly c = eval(challenge(c0, tau)); Vec z; bool ok = true, over = false;
			for (int i = 0; i < L; ++i) { z.push_back(add(y[i], interp(pw(c, s1[i])))); if (norm(z[i]) >= gamma1 - beta) over = true; for (auto x : z[i]) if (centred(x) <= -gamma1 || centred(x) > gamma1) ok = false; }
			if (!ok || over != big) continue;
			Bytes hints(omega + K); int n = 0;
			for (int i = 0; i < K && ok; ++i)
			{
				Poly r = sub_(w[i], interp(pw(c, s2[i]))), ct = interp(pw(c, t0[i]));
				for (int x = 0; x < 256 && ok; ++x) { int64_t a, b; decompose(r[x], gamma2, a, b); if (std::llabs(b) >= gamma2 - beta) ok = false; }
				if (norm(ct) >= gamma2) ok = false;
				for (int x = 0; x < 256 && ok; ++x)
				{
					int64_t a, b, d; decompose(mod(r[x] + ct[x]), gamma2, a, b); decompose(r[x], gamma2, d, b);
					if (a != d) { if (n >= omega) ok = false; else hints[n++] = (uint8_t)x; }
				}
				hints[omega + i] = (uint8_t)n;
			}
			if (!ok) continue;
			Bytes sig = c0;
			for (int i = 0; i < L; ++i) { std::vector<int> v; for (auto x : z[i]) v.push_back((int)(gamma1 - centred(x))); putBits(sig, v, zb); }
			return cat({ sig, hints, m });
		}
	}
	std::string Dilithium::pair(const Bytes& pk, const Bytes& sk) const
	{
		if (pk.size() != pkLen()) return "public key size"; 
		if (sk.size() != skLen()) return "private key size";
		if (sub(pk, 0, 32) != sub(sk, 0, 32)) return "the two keys carry different matrix seeds";
		if (sub(sk, 64, 48) != crh(pk)) return "the private key does not carry the hash of the public key";
		Bytes rho = sub(sk, 0, 32); size_t off = 112; int eb = eta == 2 ? 3 : 4; Vec s1, s2, t0;
		for (int i = 0; i < L; ++i, off += etaLen()) { s1.push_back(field(sk, off, eb, eta)); if (norm(s1[i]) > eta) return "s1 out of range"; s1[i] = eval(s1[i]); }
		for (int i = 0; i < K; ++i, off += etaLen()) { s2.push_back(field(sk, off, eb, eta)); if (norm(s2[i]) > eta) return "s2 out of range"; }
		for (int i = 0; i < K; ++i, off += 416)
		{
			Poly t = field(sk, off, 13, 1 << 12), a(256); auto t1 = bitsOf(pk.data() + 32 + 320 * i, 10);
			for (int j = 0; j < L; ++j) a = add(a, pw(matrix(rho, i, j), s1[j]));
			a = add(interp(a), s2[i]);
			for (int x = 0; x < 256; ++x) if (mod(((int64_t)t1[x] << 13) + t[x]) != a[x]) return "the public key is not A s1 + s2";
		}
		return "";
	}
}
