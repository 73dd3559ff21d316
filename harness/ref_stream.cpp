#include "ref.h"
namespace ref
{
	const StreamDef& streamDef(StreamKind k)
	{
		static const StreamDef D[] = {
			{ CHACHA, 32, 8, 16, 8, 64, "ChaChaP20", "ChaChaP20-KMAC256" }, { CSX, 64, 16, 48, 16, 128, "CSX512", "CSX512-KMAC512" },
			{ TSX256, 32, 16, 16, 16, 32, "TSX256", "TSX256-KMAC256" }, { TSX512, 64, 16, 16, 16, 64, "TSX512", "TSX512-KMAC512" }, { TSX1024, 128, 16, 16, 16, 128, "TSX1024", "TSX1024-KMAC512" },
			{ RCS, 0, 32, 0, 16, 32, "RCS", "RCSK" }, { RWS, 0, 64, 0, 16, 64, "RWS", "RWSK" } };
		return D[k];
	}
	// successive requests to a SHAKE generator each start on a fresh block
	struct Xof
	{
		Bytes all; size_t rate, pos = 0; Bytes key, custom, info;
		Xof(size_t r, const Bytes& k, const Bytes& c, const Bytes& i) : rate(r), key(k), custom(c), info(i) {}
		Bytes next(size_t n)
		{
			Bytes o = shakeKdf(rate, key, custom, info, pos + n);
			o.erase(o.begin(), o.begin() + pos);
			pos += (n + rate - 1) / rate * rate;
			return o;
		}
	};
	Stream::Stream(StreamKind kk, bool auth, const Bytes& k0, const Bytes& iv, const Bytes& info) : k(kk), key(k0), ctr(iv), code(info)
	{
		const StreamDef& d = streamDef(k);
		static const char* DEF[] = { "expand 32-byte k", "CSX512 KMAC authentication ver. 1c CEX++ library" };
		name = auth ? d.authName : d.name;
		if (k == CHACHA || k == CSX)
		{
			if (code.empty()) code = str(DEF[k]);
			if (auth)
			{
				Xof x(k == CHACHA ? 136 : 72, key, Bytes(), str(name));
				key = x.next(key.size());
				macRate = k == CHACHA ? 136 : 72; tagLen = k == CHACHA ? 32 : 64;
				macKey = x.next(tagLen);
			}
			if (k == CHACHA) { code.insert(code.end(), iv.begin(), iv.end()); ctr = Bytes(8); }
		}
		else if (k == RCS || k == RWS)
		{
			size_t ks = key.size();
			int bits = k == RCS ? (ks == 64 ? 512 : 256) : ks == 16 ? 128 : ks == 32 ? 256 : 512;
			size_t rate = bits == 128 ? 168 : bits == 256 ? 136 : 72;
			if (auth) name += bits == 128 ? "128" : bits == 256 ? "256" : "512";
			macCounter = k == RCS ? 1 : 0;
			Xof x(rate, key, info, cat({ leb(macCounter, 8), leb(8 * ks, 2), str(k == RWS && bits == 128 && auth ? "RWS" : name) }));
			r.nb = k == RCS ? 8 : 16;
			r.rounds = k == RCS ? (ks == 32 ? 22 : 30) : ks == 16 ? 20 : ks == 32 ? 40 : 80;
			Bytes w = x.next(d.block * (r.rounds + 1));
			for (int i = 0; i <= r.rounds; ++i) r.rk.push_back(sub(w, i * d.block, d.block));
			if (auth) { macRate = rate; tagLen = bits / 8; macKey = x.next(tagLen); }
		}
		else
		{
			static const char* T[] = { "ThreefishP256R72", "ThreefishP512R96", "Threefish1024120" };
			if (code.empty()) code = str(T[k - TSX256]);
			if (auth)
			{
				macCounter = 1;
				macRate = k == TSX256 ? 136 : 72; tagLen = k == TSX256 ? 32 : k == TSX512 ? 64 : 128;
				Xof x(macRate, key, cat({ leb(1, 8), str(name) }), Bytes());
				key = x.next(key.size());
				macKey = x.next(k == TSX256 ? 32 : 64);
			}
		}
	}
	static void qr(uint32_t* x, int a, int b, int c, int d)
	{
		x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 12);
		x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 7);
	}
	static void qr64(uint64_t* x, int a, int b, int c, int d, const int* r)
	{
		x[a] += x[b]; x[d] = rotl64(x[d] ^ x[a], r[0]); x[c] += x[d]; x[b] = rotl64(x[b] ^ x[c], r[1]);
		x[a] += x[b]; x[d] = rotl64(x[d] ^ x[a], r[2]); x[c] += x[d]; x[b] = rotl64(x[b] ^ x[c], r[3]);
	}
	Bytes Stream::process(const Bytes& in)
	{
		const StreamDef& d = streamDef(k);
		Bytes out(in), ks(d.block);
		for (size_t pos = 0; pos < in.size(); pos += d.block)
		{
			if (k == CHACHA)
			{
				uint32_t s[16], x[16];
				for (int i = 0; i < 4; ++i) s[i] = ldle32(&code[4 * i]);
				for (int i = 0; i < 8; ++i) s[4 + i] = ldle32(&key[4 * i]);
				s[12] = ldle32(&ctr[0]); s[13] = ldle32(&ctr[4]); s[14] = ldle32(&code[16]); s[15] = ldle32(&code[20]);
				memcpy(x, s, sizeof s);
				for (int i = 0; i < 10; ++i)
				{
					for (int j = 0; j < 4; ++j) qr(x, j, 4 + j, 8 + j, 12 + j);
					for (int j = 0; j < 4; ++j) qr(x, j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4);
				}
				for (int i = 0; i < 16; ++i) stle32(&ks[4 * i], x[i] + s[i]);
			}
			else if (k == CSX)
			{
				static const int R[8][4] = { { 38, 19, 10, 55 }, { 33, 4, 51, 13 }, { 16, 34, 56, 51 }, { 4, 53, 42, 41 }, { 34, 41, 59, 17 }, { 23, 31, 37, 20 }, { 31, 44, 47, 46 }, { 12, 47, 44, 30 } };
				uint64_t s[16], x[16];
				for (int i = 0; i < 8; ++i) s[i] = ldle64(&key[8 * i]);
				for (int i = 0; i < 4; ++i) s[8 + i] = ldle64(&code[8 * i]);
				s[12] = ldle64(&ctr[0]); s[13] = ldle64(&ctr[8]); s[14] = ldle64(&code[32]); s[15] = ldle64(&code[40]);
				memcpy(x, s, sizeof s);
				for (int i = 0; i < 20; ++i)
				{
					for (int j = 0; j < 4; ++j) qr64(x, j, 4 + j, 8 + j, 12 + j, R[j]);
					for (int j = 0; j < 4; ++j) qr64(x, j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4, R[4 + j]);
				}
				for (int i = 0; i < 16; ++i) stle64(&ks[8 * i], x[i] + s[i]);
			}
			else if (k == RCS || k == RWS) r.encrypt(ctr.data(), ks.data());
			else
			{
				size_t n = d.block / 8;
				std::vector<uint64_t> kw(n), x(n, ~0ULL);
				for (size_t i = 0; i < n; ++i) kw[i] = ldle64(&key[8 * i]);
				x[0] = ldle64(&ctr[0]); x[1] = ldle64(&ctr[8]);
				threefish(kw, ldle64(&code[0]), ldle64(&code[8]), x, k == TSX256 ? 72 : k == TSX512 ? 96 : 120, k == TSX1024 ? 20 : 18);
				for (size_t i = 0; i < n; ++i) stle64(&ks[8 * i], x[i]);
			}
			for (size_t i = 0; i < d.block && pos + i < in.size(); ++i) out[pos + i] ^= ks[i];
			for (size_t i = 0; i < d.ctrLen && ++ctr[i] == 0; ++i) {}
		}
		return out;
	}
	Bytes Stream::tag(const std::vector<Bytes>& aad, const Bytes& start, const Bytes& ct)
	{
		Bytes m;
		for (auto& a : aad) { m.insert(m.end(), a.begin(), a.end()); if (k != CHACHA) le(m, a.size(), 4); }
		m = cat({ m, start, ct });
		macCounter += ct.size();
		if (k == RCS || k == RWS) le(m, macCounter + ctr.size() + 8, 8);
		else { le(m, macCounter, 8); if (k != CHACHA && k != CSX) m = cat({ m, str(name) }); }
		return kmac(macRate, macKey, m, Bytes(), tagLen);
	}

	Hba::Hba(bool aes_, Ext e_, const std::string& cipher, HbaAuth a_, const Bytes& key, const Bytes& iv, const Bytes& info) : isAes(aes_), e(e_), a(a_), ctr(iv), custom(info)
	{
		static const char* AN[] = { "HMACSHA2256", "HMACSHA2512", "KMAC256", "KMAC512", "Poly1305" };
		nm = cat({ leb(counter, 8), leb(8 * key.size(), 2), str("HBA-" + cipher + "-" + AN[a]) });
		Bytes ck;
		if (a == AHMAC256 || a == AHMAC512)
		{
			digest = key.size() == 64 ? 512 : 256;
			size_t kl = digest / 8;
			Bytes w = hkdfExpand(digest, hkdfExtract(digest, nm, key), custom, 2 * kl);
			ck = sub(w, 0, kl); macKey = sub(w, kl, kl);
		}
		else
		{
			rate = a == AKMAC512 ? 72 : 136;
			Xof x(rate, key, custom, nm);
			ck = x.next(key.size()); macKey = x.next(a == AKMAC512 ? 64 : 32);
		}
		b = block(isAes, e, ck, info);
	}
	void Hba::aad(const Bytes& d) { if (!d.empty()) { pending.insert(pending.end(), d.begin(), d.end()); le(pending, d.size(), 4); } }
	Bytes Hba::seal(const Bytes& m, Bytes& tag)
	{
		pending = cat({ pending, ctr });
		Bytes c = ref::ctr(b, ctr, m, true);
		for (size_t i = 0; i < (m.size() + 15) / 16; ++i) for (size_t j = 0; j < 16 && ++ctr[j] == 0; ++j) {}
		counter += m.size();
		pending = cat({ pending, c, leb(counter + 16 + 8, 8) });
		switch (a)
		{
			case AHMAC256: tag = hmac(256, macKey, pending); break;
			case AHMAC512: tag = hmac(512, macKey, pending); break;
			case AKMAC256: tag = kmac(136, macKey, pending, Bytes(), 32); break;
			case AKMAC512: tag = kmac(72, macKey, pending, Bytes(), 64); break;
			default: tag = poly1305(macKey, pending);
		}
		pending.clear();
		Bytes n8 = leb(counter, 8); std::copy(n8.begin(), n8.end(), nm.begin());
		if (digest) macKey = hkdfExpand(digest, hkdfExtract(digest, nm, macKey), custom, digest / 8);
		else macKey = shakeKdf(rate, macKey, custom, nm, a == AKMAC512 ? 64 : 32);
		return c;
	}
}
