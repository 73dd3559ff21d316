#include "ref.h"
namespace ref
{
	Bytes kmacN(size_t rate, const Bytes& key, const Bytes& m, const Bytes& name, const Bytes& custom, size_t out, int rounds)
	{
		Sponge s(rate, rounds);
		s.absorb(cat({ leftEncode(rate), leftEncode(8 * name.size()), name, leftEncode(8 * custom.size()), custom }));
		s.padTo();
		s.absorb(cat({ leftEncode(rate), leftEncode(8 * key.size()), key }));
		s.padTo();
		s.absorb(m); s.absorb(rightEncode(8 * out)); s.finish(0x04);
		return s.squeeze(out);
	}
	Bytes cshakeRaw(size_t rate, const Bytes& m, const Bytes& name, const Bytes& custom, size_t out, int rounds)
	{
		Sponge s(rate, rounds);
		s.absorb(cat({ leftEncode(rate), leftEncode(8 * name.size()), name, leftEncode(8 * custom.size()), custom }));
		s.padTo(); s.absorb(m); s.finish(0x04);
		return s.squeeze(out);
	}
	Bytes kpa(const Bytes& key, const Bytes& custom, const Bytes& m, size_t out)
	{
		size_t rate = key.size() == 16 ? 168 : key.size() == 32 ? 136 : 72, leaf = key.size() == 32 ? 32 : 64;
		Sponge root(rate, 12);
		if (!custom.empty()) { root.absorb(cat({ leftEncode(rate), leftEncode(8 * custom.size()), custom })); root.padTo(); }
		root.absorb(cat({ leftEncode(rate), leftEncode(8 * key.size()), key })); root.padTo();
		Bytes leaves;
		for (size_t i = 0; i < 8; ++i)
		{
			Sponge s(root);
			// the lane's name, as a big-endian word: its number, then the algorithm name
			uint64_t name = (uint64_t)(i + 1) << 48 | 0x4B4241AD3132ULL;
			s.s[0] ^= name;
			keccakP(s.s, 12);
			for (size_t b = 0; b < m.size(); b += 8 * rate)
			{
				Bytes blk(rate);
				for (size_t j = 0; j < rate; ++j) { size_t p = b + i * rate + j; if (p < m.size()) blk[j] = m[p]; }
				s.absorb(blk);
			}
			for (size_t j = 0; j < leaf; ++j) leaves.push_back(((uint8_t*)s.s)[j]);
		}
		Sponge t(rate, 12);
		t.absorb(leaves); t.padTo();
		t.absorb(cat({ rightEncode(8 * out), rightEncode(8 * m.size()) })); t.finish(0x41);
		return t.squeeze(out);
	}
}
