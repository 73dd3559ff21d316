#include "ref.h"
namespace ref
{
	// the first n bytes of a key stream, starting at the given whole block
	Bytes kdf2(int bits, const Bytes& key, const Bytes& iv, const Bytes& info, size_t out)
	{
		size_t bs = bits / 4;
		Bytes st, salt;
		if (!iv.empty()) { st = key; salt = cat({ iv, info }); }
		else if (key.size() <= bs) { st = key; st.resize(bs); }
		else { st = sub(key, 0, bs); salt = cat({ sub(key, bs, key.size() - bs), info }); }
		Bytes r;
		for (uint32_t i = 1; r.size() < out; ++i) { Bytes h = sha2(bits, cat({ st, beb(i, 4), salt })); r.insert(r.end(), h.begin(), h.end()); }
		r.resize(out);
		return r;
	}
	Bytes pbkdf2(int bits, const Bytes& key, const Bytes& salt, uint32_t iterations, size_t out)
	{
		Bytes r(out);
		if (out) PKCS5_PBKDF2_HMAC((const char*)key.data(), (int)key.size(), salt.data(), (int)salt.size(), (int)iterations, bits == 256 ? EVP_sha256() : EVP_sha512(), (int)out, r.data());
		return r;
	}
	Bytes shakeKdf(size_t rate, const Bytes& key, const Bytes& custom, const Bytes& info, size_t out)
	{
		return custom.empty() && info.empty() ? shake(rate, key, out) : cshakeRaw(rate, key, info, custom, out);
	}
	Scbkdf::Scbkdf(size_t r, const Bytes& key, const Bytes& custom, const Bytes& info, size_t cpuCost, size_t memMb) : rate(r), cpu(cpuCost), mem(memMb * 1000000)
	{
		memset(s, 0, sizeof s);
		if (!custom.empty() || !info.empty())
		{
			Bytes c = cat({ leftEncode(rate), leftEncode(8 * info.size()), info, leftEncode(8 * custom.size()), custom });
			while (c.size() % rate) c.push_back(0);
			for (size_t i = 0; i < c.size(); ++i) { ((uint8_t*)s)[i % rate] ^= c[i]; if (i % rate == rate - 1) keccakP(s); }
		}
		absorb(key);
		keccakP(s);
		cache = Bytes((uint8_t*)s, (uint8_t*)s + rate);
	}
	void Scbkdf::absorb(const Bytes& b)
	{
		size_t p = 0;
		for (uint8_t c : b) { ((uint8_t*)s)[p] ^= c; if (++p == rate) { keccakP(s); p = 0; } }
		((uint8_t*)s)[p] ^= 0x24; ((uint8_t*)s)[rate - 1] ^= 0x80;
	}
	Bytes Scbkdf::generate(size_t n)
	{
		for (size_t i = 0; i < cpu; ++i)
		{
			absorb(cache);
			if (cache.size() < mem) cache.insert(cache.end(), (uint8_t*)s, (uint8_t*)s + rate);
		}
		Bytes r;
		while (r.size() < n) { keccakP(s); r.insert(r.end(), (uint8_t*)s, (uint8_t*)s + rate); }
		r.resize(n);
		return r;
	}
}
