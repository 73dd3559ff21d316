// hash-based signatures: SPHINCS+ and XMSS
#include "ref_pq.h"
namespace ref
{
	namespace
	{
		// base-16 digits of the digest followed by the checksum's
		std::vector<int> digits(const Bytes& m)
		{
			std::vector<int> r; int sum = 0;
			for (uint8_t b : m) { r.push_back(b >> 4); r.push_back(b & 15); }
			for (int d : r) sum += 15 - d;
			r.push_back(sum >> 8 & 15); r.push_back(sum >> 4 & 15); r.push_back(sum & 15);
			return r;
		}
	}
	// ---- SPHINCS+ ----
	Sphincs::Sphincs(int level)
	{
		n = level == 1 ? 16 : level == 3 ? 24 : level == 5 ? 32 : 64; h = level <= 3 ? 63 : 64; d = level <= 3 ? 7 : 8;
		a = level == 1 ? 12 : 14; kk = level == 1 ? 14 : level == 3 ? 17 : level == 5 ? 22 : 30; rate = level == 6 ? 72 : 136;
	}
	namespace
	{
		struct Adr
		{
			uint32_t layer = 0; uint64_t tree = 0; uint32_t type = 0, w5 = 0, w6 = 0, w7 = 0;
			Bytes bytes() const { Bytes b; be(b, layer, 4); be(b, 0, 4); be(b, tree, 8); be(b, type, 4); be(b, w5, 4); be(b, w6, 4); be(b, w7, 4); return b; }
		};
		struct Sp
		{
			const Sphincs& p; Bytes seed;
			Bytes T(const Adr& a, const Bytes& m) const
			{
				Bytes k = cat({ seed, a.bytes() }), x = shake(p.rate, k, m.size());
				for (size_t i = 0; i < m.size(); ++i) x[i] ^= m[i];
				return shake(p.rate, cat({ k, x }), p.n);
			}
			Bytes chain(Adr a, Bytes x, int from, int to) const { for (int i = from; i < to; ++i) { a.w7 = i; x = T(a, x); } return x; }
			// the root above a leaf
			Bytes climb(Adr a, Bytes node, uint32_t idx, uint32_t base, const uint8_t* auth, size_t height) const
			{
				for (size_t i = 0; i < height; ++i)
				{
					Bytes s(auth + i * p.n, auth + (i + 1) * p.n); a.w6 = (uint32_t)i + 1; a.w7 = (idx >> (i + 1)) + (base >> (i + 1));
					node = T(a, (idx >> i) & 1 ? cat({ s, node }) : cat({ node, s }));
				}
				return node;
			}
			Bytes wotsPk(Adr a, const Bytes& msg, const uint8_t* sig) const
			{
				auto dg = digits(msg); Bytes all;
				for (size_t i = 0; i < p.wlen(); ++i) { a.w6 = (uint32_t)i; Bytes x = chain(a, Bytes(sig + i * p.n, sig + (i + 1) * p.n), dg[i], 15); all.insert(all.end(), x.begin(), x.end()); }
				Adr k = a; k.type = 1; k.w6 = k.w7 = 0; return T(k, all);
			}
		};
	}
	bool Sphincs::verify(const Bytes& pk, const Bytes& sm) const
	{
		if (sm.size() < sigLen() || pk.size() != 2 * n) return false;
		Sp s{ *this, sub(pk, 0, n) }; Bytes msg = sub(sm, sigLen(), sm.size() - sigLen());
		size_t hb = h / d, fb = (a * kk + 7) / 8, tb = (h - hb + 7) / 8, lb = (hb + 7) / 8;
		Bytes dg = shake(rate, cat({ sub(sm, 0, n), pk, msg }), fb + tb + lb);
		uint64_t tree = 0, leaf = 0; for (size_t i = 0; i < tb; ++i) tree = tree << 8 | dg[fb + i]; for (size_t i = 0; i < lb; ++i) leaf = leaf << 8 | dg[fb + tb + i];
		if (h - hb < 64) tree &= (1ULL << (h - hb)) - 1;
		leaf &= (1ULL << hb) - 1;
		const uint8_t* q = sm.data() + n; Bytes roots; Adr f; f.tree = tree; f.type = 3; f.w5 = (uint32_t)leaf;
		for (size_t i = 0; i < kk; ++i)
		{
			uint32_t idx = 0; for (size_t j = 0; j < a; ++j) { size_t b = i * a + j; idx |= (uint32_t)((dg[b / 8] >> (b % 8)) & 1) << j; }
			uint32_t base = (uint32_t)(i << a); Adr l = f; l.w6 = 0; l.w7 = idx + base;
			Bytes r = s.climb(f, s.T(l, Bytes(q, q + n)), idx, base, q + n, a); roots.insert(roots.end(), r.begin(), r.end()); q += n * (a + 1);
		}
		f.type = 4; f.w6 = f.w7 = 0; Bytes node = s.T(f, roots);
		for (size_t i = 0; i < d; ++i)
		{
			Adr w; w.layer = (uint32_t)i; w.tree = tree; w.w5 = (uint32_t)leaf;
			Bytes lf = s.wotsPk(w, node, q); q += n * wlen();
			Adr t; t.layer = (uint32_t)i; t.tree = tree; t.type = 2;
			node = s.climb(t, lf, (uint32_t)leaf, 0, q, hb); q += n * hb;
			leaf = tree & ((1ULL << hb) - 1); tree >>= hb;
		}
		return node == sub(pk, n, n);
	}
	Bytes Sphincs::root(const Bytes& sk, const Bytes& pkSeed) const
	{
		Sp s{ *this, pkSeed }; size_t hb = h / d; std::vector<Bytes> row;
		for (uint32_t l = 0; l < 1u << hb; ++l)
		{
			Adr w; w.layer = (uint32_t)d - 1; w.w5 = l; Bytes all;
			for (size_t i = 0; i < wlen(); ++i) { w.w6 = (uint32_t)i; w.w7 = 0; Bytes x = s.chain(w, shake(136, cat({ sk, w.bytes() }), n), 0, 15); all.insert(all.end(), x.begin(), x.end()); }
			w.type = 1; w.w6 = w.w7 = 0; row.push_back(s.T(w, all));
		}
		for (uint32_t y = 1; row.size() > 1; ++y) { std::vector<Bytes> up; for (uint32_t i = 0; i < row.size() / 2; ++i) { Adr t; t.layer = (uint32_t)d - 1; t.type = 2; t.w6 = y; t.w7 = i; up.push_back(s.T(t, cat({ row[2 * i], row[2 * i + 1] }))); } row = up; }
		return row[0];
	}
	// ---- XMSS ----
	Bytes Xmss::hash(const Bytes& m) const { return shake ? ref::shake(n == 32 ? 168 : 136, m, n) : sha2(n == 32 ? 256 : 512, m); }
	namespace
	{
		struct XAdr { uint32_t layer = 0; uint64_t tree = 0; uint32_t type = 0, a = 0, b = 0, c = 0, mask = 0; Bytes bytes() const { Bytes r; be(r, layer, 4); be(r, tree, 8); be(r, type, 4); be(r, a, 4); be(r, b, 4); be(r, c, 4); be(r, mask, 4); return r; } };
		struct Xs
		{
			const Xmss& p; Bytes seed;
			Bytes prf(const Bytes& key, const Bytes& m) const { return p.hash(cat({ beb(3, (int)p.n), key, m })); }
			Bytes F(XAdr a, const Bytes& m) const { a.mask = 0; Bytes k = prf(seed, a.bytes()); a.mask = 1; Bytes x = prf(seed, a.bytes()); for (size_t i = 0; i < x.size(); ++i) x[i] ^= m[i]; return p.hash(cat({ beb(0, (int)p.n), k, x })); }
			Bytes H(XAdr a, const Bytes& l, const Bytes& r) const
			{
				a.mask = 0; Bytes k = prf(seed, a.bytes()); a.mask = 1; Bytes x = prf(seed, a.bytes()); a.mask = 2; Bytes y = prf(seed, a.bytes());
				for (size_t i = 0; i < x.size(); ++i) { x[i] ^= l[i]; y[i] ^= r[i]; }
				return p.hash(cat({ beb(1, (int)p.n), k, x, y }));
			}
		};
	}
	bool Xmss::verify(const Bytes& pk, const Bytes& sm) const
	{
		if (sm.size() < sigLen() || pk.size() != 4 + 2 * n) return false;
		Bytes root = sub(pk, 4, n), msg = sub(sm, sigLen(), sm.size() - sigLen()); Xs s{ *this, sub(pk, 4 + n, n) }; uint64_t idx = index(sm, 0); size_t hb = h / d, off = idxLen();
		Bytes node = hash(cat({ beb(2, (int)n), sub(sm, off, n), root, beb(idx, (int)n), msg })); off += n;
		for (size_t l = 0; l < d; ++l)
		{
			uint32_t leaf = (uint32_t)(idx & ((1ULL << hb) - 1)); idx >>= hb; auto dg = digits(node); std::vector<Bytes> row;
			for (size_t i = 0; i < wlen(); ++i, off += n)
			{
				Bytes x = sub(sm, off, n); XAdr a; a.layer = (uint32_t)l; a.tree = idx; a.a = leaf; a.b = (uint32_t)i;
				for (int j = dg[i]; j < 15; ++j) { a.c = j; x = s.F(a, x); }
				row.push_back(x);
			}
			for (uint32_t y = 0; row.size() > 1; ++y)
			{
				std::vector<Bytes> up; XAdr a; a.layer = (uint32_t)l; a.tree = idx; a.type = 1; a.a = leaf; a.b = y;
				for (size_t i = 0; i + 1 < row.size(); i += 2) { a.c = (uint32_t)i / 2; up.push_back(s.H(a, row[i], row[i + 1])); }
				if (row.size() & 1) up.push_back(row.back());
				row = up;
			}
			node = row[0];
			for (size_t i = 0; i < hb; ++i, off += n)
			{
				XAdr a; a.layer = (uint32_t)l; a.tree = idx; a.type = 2; a.b = (uint32_t)i; a.c = leaf >> (i + 1); Bytes sib = sub(sm, off, n);
				node = (leaf >> i) & 1 ? s.H(a, sib, node) : s.H(a, node, sib);
			}
		}
		return node == root;
	}
}
