#include "ref.h"
namespace ref
{
	void keccakP(uint64_t s[25], int rounds)
	{
		// round constants from the LFSR of FIPS 202
		static uint64_t rc[64]; static bool init = false;
		if (!init)
		{
			auto bit = [](int t) { t %= 255; uint32_t r = 1; for (int i = 0; i < t; ++i) { r <<= 1; if (r & 0x100) r ^= 0x171; } return r & 1; };
			for (int i = 0; i < 64; ++i) { uint64_t v = 0; for (int j = 0; j <= 6; ++j) if (bit(j + 7 * i)) v |= 1ULL << ((1 << j) - 1); rc[i] = v; }
			init = true;
		}
		for (int rd = 0; rd < rounds; ++rd)
		{
			uint64_t c[5], b[25];
			for (int x = 0; x < 5; ++x) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
			for (int x = 0; x < 5; ++x) { uint64_t d = c[(x + 4) % 5] ^ rotl64(c[(x + 1) % 5], 1); for (int y = 0; y < 25; y += 5) s[x + y] ^= d; }
			b[0] = s[0];
			int x = 1, y = 0;
			for (int t = 0; t < 24; ++t) { int nx = y, ny = (2 * x + 3 * y) % 5; b[nx + 5 * ny] = rotl64(s[x + 5 * y], ((t + 1) * (t + 2) / 2) % 64); x = nx; y = ny; }
			for (int yy = 0; yy < 25; yy += 5) for (int xx = 0; xx < 5; ++xx) s[xx + yy] = b[xx + yy] ^ (~b[(xx + 1) % 5 + yy] & b[(xx + 2) % 5 + yy]);
			s[0] ^= rc[rd];
		}
	}
	Sponge::Sponge(size_t r, int n) : rate(r), pos(0), rounds(n), squeezing(false) { memset(s, 0, sizeof s); }
	void Sponge::absorb(const Bytes& b) { for (uint8_t c : b) { ((uint8_t*)s)[pos] ^= c; if (++pos == rate) { keccakP(s, rounds); pos = 0; } } }
	void Sponge::padTo() { if (pos) { keccakP(s, rounds); pos = 0; } }
	void Sponge::finish(uint8_t d) { ((uint8_t*)s)[pos] ^= d; ((uint8_t*)s)[rate - 1] ^= 0x80; keccakP(s, rounds); pos = 0; }
	Bytes Sponge::squeeze(size_t n) { Bytes r; while (r.size() < n) { if (pos == rate) { keccakP(s, rounds); pos = 0; } r.push_back(((uint8_t*)s)[pos++]); } return r; }
	Bytes sha3(size_t rate, size_t out, const Bytes& m) { Sponge s(rate); s.absorb(m); s.finish(0x06); return s.squeeze(out); }
	Bytes shake(size_t rate, const Bytes& m, size_t out, int rounds) { Sponge s(rate, rounds); s.absorb(m); s.finish(0x1F); return s.squeeze(out); }
	Bytes leftEncode(uint64_t v) { Bytes b; int n = 1; while (n < 8 && v >> (8 * n)) ++n; b.push_back((uint8_t)n); be(b, v, n); return b; }
	Bytes rightEncode(uint64_t v) { Bytes b; int n = 1; while (n < 8 && v >> (8 * n)) ++n; be(b, v, n); b.push_back((uint8_t)n); return b; }
	Bytes cshake(size_t rate, const Bytes& m, const Bytes& name, const Bytes& custom, size_t out, int rounds)
	{
		if (name.empty() && custom.empty()) return shake(rate, m, out, rounds);
		Sponge s(rate, rounds);
		s.absorb(cat({ leftEncode(rate), leftEncode(8 * name.size()), name, leftEncode(8 * custom.size()), custom }));
		s.padTo(); s.absorb(m); s.finish(0x04);
		return s.squeeze(out);
	}
	Bytes kmac(size_t rate, const Bytes& key, const Bytes& m, const Bytes& custom, size_t out)
	{
		Sponge s(rate);
		Bytes name = str("KMAC");
		s.absorb(cat({ leftEncode(rate), leftEncode(8 * name.size()), name, leftEncode(8 * custom.size()), custom }));
		s.padTo();
		s.absorb(cat({ leftEncode(rate), leftEncode(8 * key.size()), key }));
		s.padTo();
		s.absorb(m); s.absorb(rightEncode(8 * out)); s.finish(0x04);
		return s.squeeze(out);
	}

	Bytes sha2(int bits, const Bytes& m) { Bytes o(bits / 8); if (bits == 256) SHA256(m.data(), m.size(), o.data()); else SHA512(m.data(), m.size(), o.data()); return o; }
	Bytes hmac(int bits, const Bytes& key, const Bytes& m)
	{
		size_t B = bits == 256 ? 64 : 128;
		Bytes k = key.size() > B ? sha2(bits, key) : key; k.resize(B);
		Bytes i(k), o(k); for (auto& c : i) c ^= 0x36; for (auto& c : o) c ^= 0x5c;
		return sha2(bits, cat({ o, sha2(bits, cat({ i, m })) }));
	}
	Bytes hkdfExtract(int bits, const Bytes& salt, const Bytes& key) { return hmac(bits, salt.empty() ? Bytes(bits / 8) : salt, key); }
	Bytes hkdfExpand(int bits, const Bytes& prk, const Bytes& info, size_t out)
	{
		Bytes r, t; for (int i = 1; r.size() < out; ++i) { t = hmac(bits, prk, cat({ t, info, Bytes(1, (uint8_t)i) })); r.insert(r.end(), t.begin(), t.end()); }
		r.resize(out); return r;
	}

	uint8_t Rijndael::mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); b >>= 1; } return r; }
	struct Sboxes
	{
		uint8_t s[256], i[256], m[16][256];
		Sboxes()
		{
			for (int x = 0; x < 256; ++x)
			{
				uint8_t inv = 0; if (x) for (int y = 1; y < 256; ++y) if (Rijndael::mul((uint8_t)x, (uint8_t)y) == 1) { inv = (uint8_t)y; break; }
				uint8_t r = 0x63; for (int k = 0; k < 5; ++k) r ^= (uint8_t)(inv << k | inv >> (8 - k));
				s[x] = r; i[r] = (uint8_t)x;
				for (int k = 0; k < 16; ++k) m[k][x] = Rijndael::mul((uint8_t)x, (uint8_t)k);
			}
		}
	};
	static const Sboxes& SB() { static Sboxes s; return s; }
	uint8_t Rijndael::sbox(uint8_t x) { return SB().s[x]; }
	void Rijndael::shifts(int sh[4]) const
	{
		static const int S[3][4] = { { 0, 1, 2, 3 }, { 0, 1, 3, 4 }, { 1, 2, 4, 8 } };
		for (int i = 0; i < 4; ++i) sh[i] = S[nb == 4 ? 0 : nb == 8 ? 1 : 2][i];
	}
	void Rijndael::encrypt(const uint8_t* in, uint8_t* out) const
	{
		const Sboxes& B = SB(); size_t n = 4 * nb; uint8_t a[64], b[64]; int sh[4]; shifts(sh);
		for (size_t i = 0; i < n; ++i) a[i] = in[i] ^ rk[0][i];
		for (int r = 1; r <= rounds; ++r)
		{
			for (int c = 0; c < nb; ++c) for (int w = 0; w < 4; ++w) b[4 * c + w] = B.s[a[4 * ((c + sh[w]) % nb) + w]];
			if (r != rounds)
				for (int c = 0; c < nb; ++c) { uint8_t* p = b + 4 * c; uint8_t q[4]; for (int w = 0; w < 4; ++w) q[w] = B.m[2][p[w]] ^ B.m[3][p[(w + 1) & 3]] ^ p[(w + 2) & 3] ^ p[(w + 3) & 3]; memcpy(p, q, 4); }
			for (size_t i = 0; i < n; ++i) a[i] = b[i] ^ rk[r][i];
		}
		memcpy(out, a, n);
	}
	void Rijndael::decrypt(const uint8_t* in, uint8_t* out) const
	{
		const Sboxes& B = SB(); size_t n = 4 * nb; uint8_t a[64], b[64]; int sh[4]; shifts(sh);
		memcpy(a, in, n);
		for (int r = rounds; r >= 1; --r)
		{
			for (size_t i = 0; i < n; ++i) b[i] = a[i] ^ rk[r][i];
			if (r != rounds)
				for (int c = 0; c < nb; ++c) { uint8_t* p = b + 4 * c; uint8_t q[4]; for (int w = 0; w < 4; ++w) q[w] = B.m[14][p[w]] ^ B.m[11][p[(w + 1) & 3]] ^ B.m[13][p[(w + 2) & 3]] ^ B.m[9][p[(w + 3) & 3]]; memcpy(p, q, 4); }
			for (int c = 0; c < nb; ++c) for (int w = 0; w < 4; ++w) a[4 * ((c + sh[w]) % nb) + w] = B.i[b[4 * c + w]];
		}
		for (size_t i = 0; i < n; ++i) out[i] = a[i] ^ rk[0][i];
	}
	Rijndael aes(const Bytes& key)
	{
		Rijndael r; r.nb = 4; int nk = (int)key.size() / 4; r.rounds = nk + 6;
		Bytes w(key); uint8_t rc = 1;
		for (int i = nk; i < 4 * (r.rounds + 1); ++i)
		{
			uint8_t t[4]; memcpy(t, &w[4 * (i - 1)], 4);
			if (i % nk == 0) { uint8_t x = t[0]; t[0] = Rijndael::sbox(t[1]) ^ rc; t[1] = Rijndael::sbox(t[2]); t[2] = Rijndael::sbox(t[3]); t[3] = Rijndael::sbox(x); rc = Rijndael::mul(rc, 2); }
			else if (nk > 6 && i % nk == 4) for (auto& x : t) x = Rijndael::sbox(x);
			for (int k = 0; k < 4; ++k) w.push_back(w[4 * (i - nk) + k] ^ t[k]);
		}
		for (int i = 0; i <= r.rounds; ++i) r.rk.push_back(sub(w, 16 * i, 16));
		return r;
	}

	static const uint8_t SS[8][16] = {
		{ 3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12 },{ 15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4 },{ 8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2 },{ 0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14 },
		{ 1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13 },{ 15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1 },{ 7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0 },{ 1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6 } };
	static void sboxS(int n, uint32_t x[4], bool inv)
	{
		uint8_t t[16]; for (int i = 0; i < 16; ++i) if (inv) t[SS[n][i]] = (uint8_t)i; else t[i] = SS[n][i];
		// bitsliced over the four words: collect the minterms
		uint32_t y[4] = { 0,0,0,0 };
		for (int v = 0; v < 16; ++v) { uint32_t m = ~0u; for (int k = 0; k < 4; ++k) m &= v >> k & 1 ? x[k] : ~x[k]; for (int k = 0; k < 4; ++k) if (t[v] >> k & 1) y[k] |= m; }
		memcpy(x, y, 16);
	}
	Serpent serpent(const Bytes& key)
	{
		Serpent s; const uint32_t PHI = 0x9E3779B9;
		std::vector<uint32_t> k; for (size_t o = key.size(); o > 0; o -= 4) k.push_back((uint32_t)key[o - 4] << 24 | key[o - 3] << 16 | key[o - 2] << 8 | key[o - 1]);
		bool big = key.size() == 64;
		if (!big && k.size() < 8) k.push_back(1);
		k.resize(big ? 16 : 8);
		s.rounds = big ? 40 : 32; size_t n = 4 * (s.rounds + 1), h = k.size();
		std::vector<uint32_t> w(k);
		for (size_t i = 0; i < n; ++i)
		{
			size_t j = i + h; uint32_t v = w[j - 8] ^ w[j - 5] ^ w[j - 3] ^ w[j - 1] ^ PHI ^ (uint32_t)i;
			if (big) v ^= w[j - 16] ^ w[j - 13] ^ w[j - 11] ^ w[j - 10];
			w.push_back(rotl32(v, 11));
		}
		s.rk.assign(w.begin() + h, w.end());
		for (int i = 0; i <= s.rounds; ++i) sboxS((3 - i % 8 + 8) % 8, &s.rk[4 * i], false);
		return s;
	}
	void Serpent::encrypt(const uint8_t* in, uint8_t* out) const
	{
		uint32_t x[4]; for (int i = 0; i < 4; ++i) x[i] = ldle32(in + 4 * i);
		for (int r = 0; r < rounds; ++r)
		{
			for (int i = 0; i < 4; ++i) x[i] ^= rk[4 * r + i];
			sboxS(r % 8, x, false);
			if (r != rounds - 1)
			{
				x[0] = rotl32(x[0], 13); x[2] = rotl32(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3);
				x[1] = rotl32(x[1], 1); x[3] = rotl32(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7); x[0] = rotl32(x[0], 5); x[2] = rotl32(x[2], 22);
			}
		}
		for (int i = 0; i < 4; ++i) stle32(out + 4 * i, x[i] ^ rk[4 * rounds + i]);
	}
	void Serpent::decrypt(const uint8_t* in, uint8_t* out) const
	{
		uint32_t x[4]; for (int i = 0; i < 4; ++i) x[i] = ldle32(in + 4 * i) ^ rk[4 * rounds + i];
		for (int r = rounds - 1; r >= 0; --r)
		{
			if (r != rounds - 1)
			{
				x[2] = rotl32(x[2], 10); x[0] = rotl32(x[0], 27); x[2] ^= x[3] ^ (x[1] << 7); x[0] ^= x[1] ^ x[3]; x[3] = rotl32(x[3], 25); x[1] = rotl32(x[1], 31);
				x[3] ^= x[2] ^ (x[0] << 3); x[1] ^= x[0] ^ x[2]; x[2] = rotl32(x[2], 29); x[0] = rotl32(x[0], 19);
			}
			sboxS(r % 8, x, true);
			for (int i = 0; i < 4; ++i) x[i] ^= rk[4 * r + i];
		}
		for (int i = 0; i < 4; ++i) stle32(out + 4 * i, x[i]);
	}

	Block block(bool isAes, Ext e, const Bytes& key, const Bytes& info)
	{
		Block b; b.isAes = isAes;
		if (e == None) { if (isAes) b.r = aes(key); else b.s = serpent(key); return b; }
		int rounds = isAes ? (int)key.size() / 4 + 14 : key.size() == 32 ? 40 : key.size() == 64 ? 48 : 64;
		static const char* en[] = { "", "H256", "H512", "S256", "S512" };
		Bytes custom = cat({ str(std::string(isAes ? "RHX" : "SHX") + en[e]), leb(key.size() * 8, 2), info });
		size_t n = 16 * (rounds + 1);
		Bytes w = e == HKDF256 ? hkdfExpand(256, key, custom, n) : e == HKDF512 ? hkdfExpand(512, key, custom, n) : cshake(e == SHAKE256 ? 136 : 72, key, custom, Bytes(), n);
		if (isAes)
		{
			b.r.nb = 4; b.r.rounds = rounds;
			for (size_t i = 0; i < n; i += 4) { std::swap(w[i], w[i + 3]); std::swap(w[i + 1], w[i + 2]); }
			for (int i = 0; i <= rounds; ++i) b.r.rk.push_back(sub(w, 16 * i, 16));
		}
		else { b.s.rounds = rounds; for (size_t i = 0; i < n; i += 4) b.s.rk.push_back(ldle32(&w[i])); }
		return b;
	}
	Bytes ctr(const Block& b, const Bytes& iv, const Bytes& in, bool little)
	{
		Bytes c(iv), o(in); uint8_t k[16];
		for (size_t i = 0; i < in.size(); ++i)
		{
			if (i % 16 == 0)
			{
				b.encrypt(c.data(), k);
				if (little) { for (size_t j = 0; j < 16 && ++c[j] == 0; ++j) {} } else { for (size_t j = 16; j-- > 0 && ++c[j] == 0;) {} }
			}
			o[i] ^= k[i % 16];
		}
		return o;
	}
	Bytes ecb(const Block& b, bool enc, const Bytes& in) { Bytes o(in); for (size_t i = 0; i + 16 <= in.size(); i += 16) if (enc) b.encrypt(&in[i], &o[i]); else b.decrypt(&in[i], &o[i]); return o; }
	Bytes cbc(const Block& b, bool enc, const Bytes& iv, const Bytes& in)
	{
		Bytes c(iv), o(in);
		for (size_t i = 0; i + 16 <= in.size(); i += 16)
		{
			if (enc) { uint8_t t[16]; for (int k = 0; k < 16; ++k) t[k] = in[i + k] ^ c[k]; b.encrypt(t, &o[i]); c = sub(o, i, 16); }
			else { b.decrypt(&in[i], &o[i]); for (int k = 0; k < 16; ++k) o[i + k] ^= c[k]; c = sub(in, i, 16); }
		}
		return o;
	}
	Bytes cfb(const Block& b, bool enc, const Bytes& iv, const Bytes& in, size_t reg)
	{
		Bytes r(16), o(in); std::copy(iv.begin(), iv.end(), r.begin() + (16 - iv.size()));
		for (size_t i = 0; i < in.size(); i += reg)
		{
			uint8_t k[16]; b.encrypt(r.data(), k);
			size_t n = std::min(reg, in.size() - i);
			for (size_t j = 0; j < n; ++j) o[i + j] = in[i + j] ^ k[j];
			r.erase(r.begin(), r.begin() + n);
			const Bytes& ct = enc ? o : in; r.insert(r.end(), ct.begin() + i, ct.begin() + i + n);
		}
		return o;
	}
	Bytes ofb(const Block& b, const Bytes& iv, const Bytes& in)
	{
		Bytes r(16), o(in); std::copy(iv.begin(), iv.end(), r.begin() + (16 - iv.size()));
		for (size_t i = 0; i < in.size(); ++i) { if (i % 16 == 0) b.encrypt(r.data(), r.data()); o[i] ^= r[i % 16]; }
		return o;
	}
	void ghashMul(uint8_t x[16], const uint8_t h[16])
	{
		uint8_t z[16] = { 0 }, v[16]; memcpy(v, h, 16);
		for (int i = 0; i < 128; ++i)
		{
			if (x[i / 8] >> (7 - i % 8) & 1) for (int k = 0; k < 16; ++k) z[k] ^= v[k];
			bool lsb = v[15] & 1; for (int k = 15; k > 0; --k) v[k] = (uint8_t)(v[k] >> 1 | v[k - 1] << 7); v[0] >>= 1; if (lsb) v[0] ^= 0xe1;
		}
		memcpy(x, z, 16);
	}
	static void ghash(uint8_t x[16], const uint8_t h[16], const Bytes& m) { for (size_t i = 0; i < m.size(); i += 16) { for (size_t k = 0; k < 16 && i + k < m.size(); ++k) x[k] ^= m[i + k]; ghashMul(x, h); } }
	static Bytes gcmTag(const Block& b, const Bytes& iv, const Bytes& aad, const Bytes& ct, Bytes& j0)
	{
		uint8_t h[16] = { 0 }; b.encrypt(h, h);
		j0.assign(16, 0);
		if (iv.size() == 12) { std::copy(iv.begin(), iv.end(), j0.begin()); j0[15] = 1; }
		else { ghash(j0.data(), h, iv); ghash(j0.data(), h, cat({ beb(0, 8), beb(8 * iv.size(), 8) })); }
		Bytes t(16); ghash(t.data(), h, aad); ghash(t.data(), h, ct); ghash(t.data(), h, cat({ beb(8 * aad.size(), 8), beb(8 * ct.size(), 8) }));
		uint8_t e[16]; b.encrypt(j0.data(), e); for (int i = 0; i < 16; ++i) t[i] ^= e[i];
		return t;
	}
	Bytes gcm(const Block& b, bool enc, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes& tag)
	{
		Bytes j0; gcmTag(b, iv, {}, {}, j0);
		// 32-bit counter
		Bytes c(j0), o(in); uint8_t k[16];
		for (size_t i = 0; i < in.size(); ++i) { if (i % 16 == 0) { for (int j = 15; j >= 12 && ++c[j] == 0; --j) {} b.encrypt(c.data(), k); } o[i] ^= k[i % 16]; }
		tag = gcmTag(b, iv, aad, enc ? o : in, j0);
		return o;
	}
	Bytes gmac(const Block& b, const Bytes& iv, const Bytes& in) { Bytes j; return gcmTag(b, iv, in, {}, j); }
	Bytes cmac(const Block& b, const Bytes& in)
	{
		uint8_t l[16] = { 0 }; b.encrypt(l, l);
		auto dbl = [](uint8_t* x) { uint8_t c = x[0] >> 7; for (int i = 0; i < 15; ++i) x[i] = (uint8_t)(x[i] << 1 | x[i + 1] >> 7); x[15] = (uint8_t)(x[15] << 1); if (c) x[15] ^= 0x87; };
		dbl(l);
		Bytes m(in); if (m.empty() || m.size() % 16) { dbl(l); m.push_back(0x80); while (m.size() % 16) m.push_back(0); }
		for (int i = 0; i < 16; ++i) m[m.size() - 16 + i] ^= l[i];
		Bytes x(16); for (size_t i = 0; i < m.size(); i += 16) { for (int k = 0; k < 16; ++k) x[k] ^= m[i + k]; b.encrypt(x.data(), x.data()); }
		return x;
	}
	Bytes poly1305(const Bytes& key, const Bytes& in)
	{
		// schoolbook arithmetic on 17 radix-256 limbs
		uint32_t r[17], h[17] = { 0 };
		for (int i = 0; i < 16; ++i) r[i] = key[i]; r[16] = 0;
		r[3] &= 15; r[7] &= 15; r[11] &= 15; r[15] &= 15; r[4] &= 252; r[8] &= 252; r[12] &= 252;
		auto squeeze = [&]() { uint32_t u = 0; for (int j = 0; j < 16; ++j) { u += h[j]; h[j] = u & 255; u >>= 8; } u += h[16]; h[16] = u & 3; u = 5 * (u >> 2); for (int j = 0; j < 16; ++j) { u += h[j]; h[j] = u & 255; u >>= 8; } h[16] += u; };
		for (size_t o = 0; o < in.size(); o += 16)
		{
			size_t n = std::min<size_t>(16, in.size() - o); uint32_t c[17] = { 0 };
			for (size_t j = 0; j < n; ++j) c[j] = in[o + j]; c[n] = 1;
			uint32_t u = 0; for (int j = 0; j < 17; ++j) { u += h[j] + c[j]; h[j] = u & 255; u >>= 8; }
			uint32_t x[17];
			for (int i = 0; i < 17; ++i) { uint32_t v = 0; for (int j = 0; j < 17; ++j) v += h[j] * (j <= i ? r[i - j] : 320 * r[i + 17 - j]); x[i] = v; }
			memcpy(h, x, sizeof h); squeeze();
		}
		uint32_t g[17], m[17] = { 5,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,252 }; memcpy(g, h, sizeof h);
		uint32_t u = 0; for (int j = 0; j < 17; ++j) { u += g[j] + m[j]; g[j] = u & 255; u >>= 8; }
		bool neg = g[16] >> 7; const uint32_t* f = neg ? h : g;
		Bytes t(16); u = 0; for (int j = 0; j < 16; ++j) { u += f[j] + key[16 + j]; t[j] = (uint8_t)u; u >>= 8; }
		return t;
	}
}
