#include "ref.h"

namespace ref
{
	static const int R4[8][2] = { {14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32} };
	static const int R8[8][4] = { {46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22} };
	static const int R16[8][8] = { {24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},
		{41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20} };
	static const int P4[4] = { 0,3,2,1 }, P8[8] = { 2,1,4,7,6,5,0,3 }, P16[16] = { 0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1 };

	void threefish(const std::vector<uint64_t>& key, uint64_t t0, uint64_t t1, std::vector<uint64_t>& x, int rounds, int last)
	{
		const int n = (int)key.size();
		std::vector<uint64_t> k(key);
		uint64_t par = 0x1BD11BDAA9FC1A22ULL;
		for (auto w : key) par ^= w;
		k.push_back(par);
		uint64_t t[3] = { t0, t1, t0 ^ t1 };
		auto add = [&](int s, int c)
		{
			for (int i = 0; i < n; ++i)
				x[i] += k[(s + i) % (n + 1)] + (i == n - 3 ? t[s % 3] : i == n - 2 ? t[(s + 1) % 3] : i == n - 1 ? (uint64_t)c : 0);
		};
		for (int r = 0; r < rounds; ++r)
		{
			if (r % 4 == 0) add(r / 4, r / 4);
			for (int j = 0; j < n / 2; ++j)
			{
				int rot = n == 4 ? R4[r % 8][j] : n == 8 ? R8[r % 8][j] : R16[r % 8][j];
				x[2 * j] += x[2 * j + 1];
				x[2 * j + 1] = rotl64(x[2 * j + 1], rot) ^ x[2 * j];
			}
			std::vector<uint64_t> y(x);
			for (int i = 0; i < n; ++i) x[i] = y[n == 4 ? P4[i] : n == 8 ? P8[i] : P16[i]];
		}
		add(last < 0 ? rounds / 4 : last, rounds / 4);
	}

	void Ubi::block(const Bytes& b, size_t n, bool last)
	{
		Bytes p(b);
		p.resize(bs());
		t0 += n;
		if (last) t1 |= 1ULL << 63;
		std::vector<uint64_t> m(G.size()), x;
		for (size_t i = 0; i < m.size(); ++i) m[i] = ldle64(&p[i * 8]);
		x = m;
		threefish(G, t0, t1, x, G.size() == 16 ? 80 : 72);
		for (size_t i = 0; i < m.size(); ++i) G[i] = x[i] ^ m[i];
		t1 &= ~(1ULL << 62);
	}
	void Ubi::message(int type, const Bytes& m)
	{
		start(type);
		size_t o = 0;
		do
		{
			size_t n = std::min(bs(), m.size() - o);
			block(sub(m, o, n), n, o + n == m.size());
			o += n;
		} while (o < m.size());
	}
	Bytes Ubi::out() const { Bytes r; for (auto w : G) le(r, w, 8); return r; }
	Bytes skein(size_t bytes, const Bytes& m)
	{
		Ubi u(bytes);
		Bytes c;
		le(c, 0x133414853ULL, 8);
		le(c, bytes * 8, 8);
		le(c, 0, 8); le(c, 0, 8);
		u.message(4, c);
		u.message(48, m);
		u.message(63, Bytes(8));
		return u.out();
	}
	SkeinStream::SkeinStream(size_t bytes) : u(bytes)
	{
		Bytes c;
		le(c, 0x133414853ULL, 8); le(c, bytes * 8, 8); le(c, 0, 8); le(c, 0, 8);
		u.message(4, c);
		u.start(48);
	}
	void SkeinStream::update(const Bytes& m)
	{
		for (size_t o = 0; o < m.size();)
		{
			if (held.size() == u.bs()) { u.block(held, held.size(), false); held.clear(); }
			size_t n = std::min(u.bs() - held.size(), m.size() - o);
			held.insert(held.end(), m.begin() + o, m.begin() + o + n);
			o += n;
		}
	}
	Bytes SkeinStream::finish() { u.block(held, held.size(), true); u.message(63, Bytes(8)); return u.out(); }
	// Lane i of the tree absorbs blocks i, i + lanes, ...; its chaining value starts from the previous lane's.
	// Lanes that still hold buffered input at the end are finalised; the root hashes all the lanes.
	Bytes skeinTree(size_t bytes, size_t lanes, const Bytes& m, size_t leafSize, size_t fanout)
	{
		Bytes c;
		le(c, 0x133414853ULL, 8);
		le(c, bytes * 8, 8);
		le(c, (leafSize & 255) | fanout << 8, 8);
		c.resize(bytes < 32 ? 32 : bytes);
		return skeinTree(bytes, lanes, m, c);
	}
	Bytes skeinTree(size_t bytes, size_t lanes, const Bytes& m, const Bytes& c)
	{
		std::vector<uint64_t> cfg(bytes / 8);
		for (size_t i = 0; i < cfg.size(); ++i) cfg[i] = ldle64(&c[i * 8]);
		std::vector<Ubi> L(lanes, Ubi(bytes));
		std::vector<uint64_t> prev = cfg;
		for (auto& u : L)
		{
			std::vector<uint64_t> x(prev);
			threefish(u.G, 32, 4ULL << 56 | 3ULL << 62, x, bytes == 128 ? 80 : 72);
			for (size_t i = 0; i < x.size(); ++i) u.G[i] = x[i] ^ cfg[i];
			prev = u.G;
			u.start(48);
		}
		size_t flushed = m.size() - m.size() % (lanes * bytes), o = 0;
		for (; o < flushed; o += bytes) L[o / bytes % lanes].block(sub(m, o, bytes), bytes, false);
		for (; o < m.size(); )
		{
			size_t n = std::min(bytes, m.size() - o), l = o / bytes % lanes;
			L[l].block(sub(m, o, n), n, true);
			L[l].message(63, Bytes(8));
			o += n;
		}
		Bytes codes;
		for (auto& u : L) { Bytes b = u.out(); codes.insert(codes.end(), b.begin(), b.end()); }
		// the root chains from the bare configuration block and marks each of its blocks final
		Ubi u(bytes);
		Bytes rc;
		le(rc, 0x133414853ULL, 8); le(rc, bytes * 8, 8); rc.resize(bytes);
		std::vector<uint64_t> x(bytes / 8);
		for (size_t i = 0; i < x.size(); ++i) x[i] = ldle64(&rc[i * 8]);
		u.start(4);
		u.t0 = 32; u.t1 |= 1ULL << 63;
		threefish(u.G, u.t0, u.t1, x, bytes == 128 ? 80 : 72);
		u.G = x;
		for (size_t o2 = 0; o2 < codes.size(); o2 += bytes) u.block(sub(codes, o2, bytes), bytes, true);
		u.message(63, Bytes(8));
		return u.out();
	}

	static const uint8_t SIG[12][16] = {
		{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
		{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
		{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
		{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3} };
	static const uint64_t IVB[8] = { 0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL };

	template<class W> static Bytes blake2W(const Bytes& param, const Bytes& m, bool lastNode, int r1, int r2, int r3, int r4, int rounds)
	{
		const int wb = sizeof(W), bs = wb * 16;
		W h[8], iv[8];
		for (int i = 0; i < 8; ++i)
		{
			iv[i] = wb == 8 ? (W)IVB[i] : (W)(IVB[i] >> 32);
			h[i] = iv[i] ^ (W)(wb == 8 ? ldle64(&param[i * 8]) : ldle32(&param[i * 4]));
		}
		uint64_t t = 0;
		size_t o = 0;
		auto rotr = [&](W x, int n) { return (W)(x >> n | x << (wb * 8 - n)); };
		do
		{
			size_t n = std::min((size_t)bs, m.size() - o);
			bool last = o + n == m.size();
			Bytes p = sub(m, o, n);
			p.resize(bs);
			t += n;
			o += n;
			W v[16], w[16];
			for (int i = 0; i < 16; ++i) w[i] = (W)(wb == 8 ? ldle64(&p[i * 8]) : ldle32(&p[i * 4]));
			for (int i = 0; i < 8; ++i) { v[i] = h[i]; v[i + 8] = iv[i]; }
			v[12] ^= (W)t;
			if (wb == 4) v[13] ^= (W)(t >> 32);
			if (last) { v[14] = ~v[14]; if (lastNode) v[15] = ~v[15]; }
			for (int r = 0; r < rounds; ++r)
			{
				auto G = [&](int a, int b, int c, int d, int i)
				{
					v[a] += v[b] + w[SIG[r % 10][2 * i]]; v[d] = rotr(v[d] ^ v[a], r1);
					v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], r2);
					v[a] += v[b] + w[SIG[r % 10][2 * i + 1]]; v[d] = rotr(v[d] ^ v[a], r3);
					v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], r4);
				};
				G(0, 4, 8, 12, 0); G(1, 5, 9, 13, 1); G(2, 6, 10, 14, 2); G(3, 7, 11, 15, 3);
				G(0, 5, 10, 15, 4); G(1, 6, 11, 12, 5); G(2, 7, 8, 13, 6); G(3, 4, 9, 14, 7);
			}
			for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
		} while (o < m.size());
		Bytes r;
		for (int i = 0; i < 8; ++i) le(r, h[i], wb);
		return r;
	}
	Bytes blake2(bool b, const Bytes& param, const Bytes& m, bool lastNode)
	{
		return b ? blake2W<uint64_t>(param, m, lastNode, 32, 24, 16, 63, 12) : blake2W<uint32_t>(param, m, lastNode, 16, 12, 8, 7, 10);
	}
	static Bytes blakeParam(bool b, size_t keyLen, size_t fan, size_t depth, size_t offset, size_t nodeDepth, size_t inner)
	{
		Bytes p(b ? 64 : 32);
		p[0] = b ? 64 : 32; p[1] = (uint8_t)keyLen; p[2] = (uint8_t)fan; p[3] = (uint8_t)depth;
		p[8] = (uint8_t)offset;
		p[b ? 16 : 14] = (uint8_t)nodeDepth; p[b ? 17 : 15] = (uint8_t)inner;
		return p;
	}
	Bytes blake2seq(bool b, const Bytes& key, const Bytes& salt, const Bytes& pers, const Bytes& m)
	{
		Bytes p = blakeParam(b, key.size(), 1, 1, 0, 0, 0), k(key);
		std::copy(salt.begin(), salt.end(), p.begin() + (b ? 32 : 16));
		std::copy(pers.begin(), pers.end(), p.begin() + (b ? 48 : 24));
		if (k.size()) k.resize(b ? 128 : 64);
		return blake2(b, p, cat({ k, m }), false);
	}
	Bytes blake2tree(bool b, size_t lanes, const Bytes& key, const Bytes& m)
	{
		return blake2tree(b, lanes, key, m, blakeParam(b, key.size(), lanes, 2, 0, 0, b ? 64 : 32));
	}
	Bytes blake2tree(bool b, size_t lanes, const Bytes& key, const Bytes& m, Bytes param)
	{
		size_t bs = b ? 128 : 64;
		std::vector<Bytes> L(lanes);
		if (key.size())
			for (auto& l : L) { l = key; l.resize(bs); }
		for (size_t o = 0; o < m.size(); o += bs)
		{
			Bytes x = sub(m, o, std::min(bs, m.size() - o));
			L[o / bs % lanes].insert(L[o / bs % lanes].end(), x.begin(), x.end());
		}
		Bytes codes;
		for (size_t i = 0; i < lanes; ++i)
		{
			param[8] = (uint8_t)i;
			Bytes c = blake2(b, param, L[i], i == lanes - 1);
			codes.insert(codes.end(), c.begin(), c.end());
		}
		param[3] = 2; param[8] = 0; param[b ? 16 : 14] = 1;
		return blake2(b, param, codes, true);
	}

	static Bytes treeParam(size_t n, size_t node, size_t out, size_t leaf, size_t fanout)
	{
		Bytes p;
		le(p, node, 4); le(p, 1, 2); le(p, out, 8); le(p, leaf, 4); p.push_back(0); p.push_back((uint8_t)fanout);
		p.resize(n);
		return p;
	}
	static Bytes node(Bytes p, size_t i) { for (int j = 0; j < 4; ++j) p[j] = (uint8_t)(i >> 8 * j); return p; }
	Bytes sha2Tree(int bits, size_t lanes, const Bytes& m, size_t fanout) { return sha2Tree(bits, lanes, m, treeParam(72, 0, bits / 8, bits / 4, fanout)); }
	Bytes sha2Tree(int bits, size_t lanes, const Bytes& m, const Bytes& param)
	{
		size_t bs = bits == 256 ? 64 : 128;
		std::vector<Bytes> L(lanes);
		std::vector<bool> fin(lanes);
		for (size_t i = 0; i < lanes; ++i) { L[i] = node(param, i); L[i].resize(bs == 64 ? 64 : 72); L[i].resize(bs, 0x1F); }
		size_t flushed = m.size() - m.size() % (lanes * bs);
		for (size_t o = 0; o < m.size(); o += bs)
		{
			Bytes x = sub(m, o, std::min(bs, m.size() - o));
			size_t l = o / bs % lanes;
			L[l].insert(L[l].end(), x.begin(), x.end());
			if (o >= flushed) fin[l] = true;
		}
		Bytes codes;
		for (size_t i = 0; i < lanes; ++i)
		{
			if (fin[i]) { Bytes d = sha2(bits, L[i]); codes.insert(codes.end(), d.begin(), d.end()); continue; }
			// not finalised: the chaining value itself
			if (bits == 256)
			{
				SHA256_CTX c;
				SHA256_Init(&c);
				SHA256_Update(&c, L[i].data(), L[i].size());
				for (int j = 0; j < 8; ++j) be(codes, c.h[j], 4);
			}
			else
			{
				SHA512_CTX c;
				SHA512_Init(&c);
				SHA512_Update(&c, L[i].data(), L[i].size());
				for (int j = 0; j < 8; ++j) be(codes, c.h[j], 8);
			}
		}
		return sha2(bits, codes);
	}
	Bytes sha3Tree(size_t rate, size_t lanes, const Bytes& m, size_t fanout) { return sha3Tree(rate, lanes, m, treeParam(rate, 0, rate == 136 ? 32 : 64, rate, fanout)); }
	Bytes sha3Tree(size_t rate, size_t lanes, const Bytes& m, const Bytes& param)
	{
		size_t out = rate == 136 ? 32 : 64;
		std::vector<Sponge> L;
		std::vector<bool> fin(lanes);
		for (size_t i = 0; i < lanes; ++i) { L.emplace_back(rate); L[i].absorb(node(param, i)); }
		size_t flushed = m.size() - m.size() % (lanes * rate);
		for (size_t o = 0; o < m.size(); o += rate)
		{
			L[o / rate % lanes].absorb(sub(m, o, std::min(rate, m.size() - o)));
			if (o >= flushed) fin[o / rate % lanes] = true;
		}
		Bytes codes;
		for (size_t i = 0; i < lanes; ++i)
		{
			if (fin[i]) { L[i].finish(6); Bytes d = L[i].squeeze(out); codes.insert(codes.end(), d.begin(), d.end()); }
			else for (size_t j = 0; j < out / 8; ++j) le(codes, L[i].s[j], 8);
		}
		return sha3(rate, out, codes);
	}
}
