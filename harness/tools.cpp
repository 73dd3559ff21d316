// Integer, vector-lane, memory and array helpers against byte-wise models.
#include "h.h"
#include "ArrayTools.h"
#include "BitConverter.h"
#include "IntegerTools.h"
#include "MemoryTools.h"
#include "SecureVector.h"
#include "UInt128.h"
#include "UInt256.h"
#include "ULong256.h"
#include <algorithm>
#include <array>
using namespace vh;
using namespace CEX;
using namespace CEX::Tools;
using namespace verif;

typedef unsigned __int128 u128;
template<class V> static Bytes raw(const V& v) { const uint8_t* p = (const uint8_t*)v.data(); return Bytes(p, p + v.size() * sizeof(v[0])); }
template<class V> static V make(const Bytes& b) { V v(b.size() / sizeof(typename V::value_type)); if (!b.empty()) memcpy((void*)v.data(), b.data(), v.size() * sizeof(typename V::value_type)); return v; }
static uint64_t rd(const Bytes& b, size_t o, size_t n, bool be) { uint64_t r = 0; for (size_t i = 0; i < n; ++i) r |= (uint64_t)b[o + (be ? n - 1 - i : i)] << (8 * i); return r; }
static void wr(Bytes& b, size_t o, size_t n, bool be, uint64_t v) { for (size_t i = 0; i < n; ++i) b[o + (be ? n - 1 - i : i)] = (uint8_t)(v >> (8 * i)); }
static uint64_t edge(Rng& r)
{
	switch (r.below(6)) { case 0: return 0; case 1: return ~0ULL; case 2: return 1ULL << r.below(64); case 3: return (1ULL << r.below(64)) - 1; case 4: return r.below(300); default: return r.next(); }
}
static Bytes edgy(Rng& r, size_t n) { Bytes b = r.bytes(n); unsigned k = (unsigned)r.below(4); if (k == 0) for (auto& x : b) if (r.chance(80)) x = 0xFF; if (k == 1) for (auto& x : b) if (r.chance(70)) x = 0; return b; }

#define EQ(key, got, want, ...) do { auto g_ = (got); auto w_ = (want); expect(g_ == (decltype(g_))w_, key, __VA_ARGS__); } while (0)

// conversions between integers and bytes, both orders, every offset
template<class V> static void conv(Rng& r, const char* cont)
{
	typedef IntegerTools I;
	std::string k = std::string("conv:") + cont + ":";
	for (int n = 0; n < 24; ++n)
	{
		size_t pre = r.below(20), post = r.below(10);
		uint64_t v = edge(r);
		auto put = [&](const char* name, size_t w, bool be, const std::function<void(V&)>& f) {
			Bytes b = r.bytes(pre + w + post), want = b; wr(want, pre, w, be, v);
			V x = make<V>(b); f(x); sameV(k + name, x, want, strf("value %llx offset %zu", (unsigned long long)v, pre)); seen(k + name, v ^ pre);
		};
		put("Be16ToBytes", 2, true, [&](V& x) { I::Be16ToBytes((uint16_t)v, x, pre); });
		put("Be32ToBytes", 4, true, [&](V& x) { I::Be32ToBytes((uint32_t)v, x, pre); });
		put("Be64ToBytes", 8, true, [&](V& x) { I::Be64ToBytes(v, x, pre); });
		put("Le16ToBytes", 2, false, [&](V& x) { I::Le16ToBytes((uint16_t)v, x, pre); });
		put("Le32ToBytes", 4, false, [&](V& x) { I::Le32ToBytes((uint32_t)v, x, pre); });
		put("Le64ToBytes", 8, false, [&](V& x) { I::Le64ToBytes(v, x, pre); });
		put("Be16ToBytesRaw", 2, true, [&](V& x) { I::Be16ToBytesRaw((uint16_t)v, x.data() + pre); });
		put("Be32ToBytesRaw", 4, true, [&](V& x) { I::Be32ToBytesRaw((uint32_t)v, x.data() + pre); });
		put("Be64ToBytesRaw", 8, true, [&](V& x) { I::Be64ToBytesRaw(v, x.data() + pre); });
		put("Le16ToBytesRaw", 2, false, [&](V& x) { I::Le16ToBytesRaw((uint16_t)v, x.data() + pre); });
		put("Le32ToBytesRaw", 4, false, [&](V& x) { I::Le32ToBytesRaw((uint32_t)v, x.data() + pre); });
		put("Le64ToBytesRaw", 8, false, [&](V& x) { I::Le64ToBytesRaw(v, x.data() + pre); });
		auto ret = [&](const char* name, size_t w, bool be, const V& x) { Bytes want(w); wr(want, 0, w, be, v); sameV(k + name + ":returned", x, want, strf("%llx", (unsigned long long)v)); };
		ret("Be16ToBytes", 2, true, I::Be16ToBytes<V>((uint16_t)v)); ret("Be32ToBytes", 4, true, I::Be32ToBytes<V>((uint32_t)v)); ret("Be64ToBytes", 8, true, I::Be64ToBytes<V>(v));
		ret("Le16ToBytes", 2, false, I::Le16ToBytes<V>((uint16_t)v)); ret("Le32ToBytes", 4, false, I::Le32ToBytes<V>((uint32_t)v)); ret("Le64ToBytes", 8, false, I::Le64ToBytes<V>(v));
		Bytes b = edgy(r, pre + 8 + post); V x = make<V>(b);
		auto get = [&](const char* name, size_t w, bool be, uint64_t got) { EQ(k + name, got, rd(b, pre, w, be), "%s at %zu: %llx", hex(b).c_str(), pre, (unsigned long long)got); seen(k + name, got); };
		get("BeBytesTo16", 2, true, I::BeBytesTo16(x, pre)); get("BeBytesTo32", 4, true, I::BeBytesTo32(x, pre)); get("BeBytesTo64", 8, true, I::BeBytesTo64(x, pre));
		get("LeBytesTo16", 2, false, I::LeBytesTo16(x, pre)); get("LeBytesTo32", 4, false, I::LeBytesTo32(x, pre)); get("LeBytesTo64", 8, false, I::LeBytesTo64(x, pre));
		get("BeBytesTo16Raw", 2, true, I::BeBytesTo16Raw(x.data() + pre)); get("BeBytesTo32Raw", 4, true, I::BeBytesTo32Raw(x.data() + pre)); get("BeBytesTo64Raw", 8, true, I::BeBytesTo64Raw(x.data() + pre));
		get("LeBytesTo16Raw", 2, false, I::LeBytesTo16Raw(x.data() + pre)); get("LeBytesTo32Raw", 4, false, I::LeBytesTo32Raw(x.data() + pre)); get("LeBytesTo64Raw", 8, false, I::LeBytesTo64Raw(x.data() + pre));
		size_t l4 = 1 + r.below(4), l8 = 1 + r.below(8);
		get("LeBytesTo32(Length)", l4, false, I::LeBytesTo32(x, pre, l4)); get("LeBytesTo64(Length)", l8, false, I::LeBytesTo64(x, pre, l8));
	}
}
// integer vectors and byte vectors
template<class W> static void blocks(Rng& r)
{
	typedef IntegerTools I; const size_t S = sizeof(W);
	std::string k = strf("blocks:%zu:", S * 8);
	for (int n = 0; n < 12; ++n)
	{
		size_t cnt = r.below(40), io = r.below(9), oo = r.below(9), tail = r.below(5);
		Bytes b = r.bytes(io + cnt * S + tail); std::vector<W> w(oo + cnt + tail), want; for (auto& q : w) q = (W)r.next(); want = w;
		auto cvt = [&](bool be) { want = w; for (size_t i = 0; i < cnt; ++i) want[oo + i] = (W)rd(b, io + i * S, S, be); };
		std::vector<W> o = w; I::BlockToBe(b, io, o, oo, cnt * S); cvt(true); EQ(k + "BlockToBe", o, want, "%zu words, offsets %zu %zu", cnt, io, oo);
		o = w; I::BlockToLe(b, io, o, oo, cnt * S); cvt(false); EQ(k + "BlockToLe", o, want, "%zu words, offsets %zu %zu", cnt, io, oo);
		std::vector<W> in(io + cnt + tail); for (auto& q : in) q = (W)r.next();
		Bytes p = r.bytes(oo + cnt * S + tail), wb;
		auto cvb = [&](bool be) { wb = p; for (size_t i = 0; i < cnt; ++i) wr(wb, oo + i * S, S, be, in[io + i]); };
		Bytes q = p; I::BeToBlock(in, io, q, oo, cnt * S); cvb(true); same(k + "BeToBlock", q, wb, strf("%zu words", cnt));
		q = p; I::LeToBlock(in, io, q, oo, cnt * S); cvb(false); same(k + "LeToBlock", q, wb, strf("%zu words", cnt));
		seen(k, hash(q));
	}
	// the fixed sizes
	auto fixedOut = [&](const char* name, size_t cnt, bool be, const std::function<void(std::vector<W>&, size_t, Bytes&, size_t)>& f) {
		size_t io = r.below(5), oo = r.below(20); std::vector<W> in(io + cnt + 2); for (auto& q : in) q = (W)r.next(); Bytes p = r.bytes(oo + cnt * S + 5), wb = p;
		for (size_t i = 0; i < cnt; ++i) wr(wb, oo + i * S, S, be, in[io + i]);
		f(in, io, p, oo); same(k + name, p, wb, ""); seen(k + name, hash(p));
	};
	auto fixedIn = [&](const char* name, size_t cnt, const std::function<void(Bytes&, size_t, std::vector<W>&, size_t)>& f) {
		size_t io = r.below(20), oo = r.below(5); Bytes b = r.bytes(io + cnt * S + 5); std::vector<W> o(oo + cnt + 2); for (auto& q : o) q = (W)r.next(); auto want = o;
		for (size_t i = 0; i < cnt; ++i) want[oo + i] = (W)rd(b, io + i * S, S, false);
		f(b, io, o, oo); EQ(k + name, o, want, "differs"); seen(k + name, hash(b));
	};
	if constexpr (S == 4)
	{
		fixedOut("BeUL256ToBlock", 8, true, [](auto& i, size_t a, auto& o, size_t b) { I::BeUL256ToBlock(i, a, o, b); });
		fixedOut("LeUL256ToBlock", 8, false, [](auto& i, size_t a, auto& o, size_t b) { I::LeUL256ToBlock(i, a, o, b); });
		fixedIn("LeBytesToUL512", 16, [](auto& i, size_t a, auto& o, size_t b) { I::LeBytesToUL512(i, a, o, b); });
	}
	if constexpr (S == 8)
	{
		fixedOut("BeULL512ToBlock", 8, true, [](auto& i, size_t a, auto& o, size_t b) { I::BeULL512ToBlock(i, a, o, b); });
		fixedOut("LeULL256ToBlock", 4, false, [](auto& i, size_t a, auto& o, size_t b) { I::LeULL256ToBlock(i, a, o, b); });
		fixedOut("LeULL512ToBlock", 8, false, [](auto& i, size_t a, auto& o, size_t b) { I::LeULL512ToBlock(i, a, o, b); });
		fixedOut("LeULL1024ToBlock", 16, false, [](auto& i, size_t a, auto& o, size_t b) { I::LeULL1024ToBlock(i, a, o, b); });
		fixedIn("LeBytesToULL256", 4, [](auto& i, size_t a, auto& o, size_t b) { I::LeBytesToULL256(i, a, o, b); });
		fixedIn("LeBytesToULL512", 8, [](auto& i, size_t a, auto& o, size_t b) { I::LeBytesToULL512(i, a, o, b); });
		fixedIn("LeBytesToULL1024", 16, [](auto& i, size_t a, auto& o, size_t b) { I::LeBytesToULL1024(i, a, o, b); });
	}
}

// adds value to the n bytes at o taken as one number
static void addTo(Bytes& b, size_t o, size_t n, bool be, uint64_t value)
{
	unsigned carry = 0;
	for (size_t i = 0; i < n; ++i) { uint8_t& x = b[be ? o + n - 1 - i : o + i]; unsigned s = x + (i < 8 ? (uint8_t)(value >> (8 * i)) : 0) + carry; x = (uint8_t)s; carry = s >> 8; }
}
template<class T> static void counters(Rng& r)
{
	typedef IntegerTools I;
	std::string k = strf("counter:%zu:", sizeof(T) * 8);
	for (int n = 0; n < 30; ++n)
	{
		size_t len = 1 + r.below(24), off = r.below(9), tail = r.below(9);
		T v = (T)edge(r);
		uint64_t vm = v;
		Bytes in = edgy(r, len), big = r.bytes(off + len + tail), want, o;
		std::string c = strf("%s + %llx", hex(in).c_str(), (unsigned long long)vm);
		want = in; addTo(want, 0, len, true, vm); o = in; I::BeIncrease8(o, v); same(k + "BeIncrease8", o, want, c); seen(k + "Be", hash(o) ^ vm);
		o = r.bytes(len); I::BeIncrease8(in, o, v); same(k + "BeIncrease8(copy)", o, want, c);
		Bytes w2 = big; std::copy(want.begin(), want.end(), w2.begin() + off);
		o = big; I::BeIncrease8(in, o, off, v); same(k + "BeIncrease8(offset)", o, w2, c);
		o = big; I::BeIncrease8(in, o, off, len, v); same(k + "BeIncrease8(length)", o, w2, c);
		want = in; addTo(want, 0, len, false, vm); o = in; I::LeIncrease8(o, v); same(k + "LeIncrease8", o, want, c); seen(k + "Le", hash(o) ^ vm);
		o = r.bytes(len); I::LeIncrease8(in, o, v); same(k + "LeIncrease8(copy)", o, want, c);
		w2 = big; std::copy(want.begin(), want.end(), w2.begin() + off);
		o = big; I::LeIncrease8(in, o, off, v); same(k + "LeIncrease8(offset)", o, w2, c);
		size_t part = 1 + r.below(len); Bytes w3 = in; addTo(w3, 0, part, false, vm); w2 = big; std::copy(w3.begin(), w3.end(), w2.begin() + off);
		o = big; I::LeIncrease8(in, o, off, part, v); same(k + "LeIncrease8(length)", o, w2, c);
		// by one
		want = in; addTo(want, 0, len, true, 1); o = in; I::BeIncrement8(o); same(k + "BeIncrement8", o, want, c);
		w2 = big; addTo(w2, off, len, true, 1); o = big; I::BeIncrement8(o, off, len); same(k + "BeIncrement8(range)", o, w2, c);
		want = in; addTo(want, 0, len, false, 1); o = in; I::LeIncrement(o); same(k + "LeIncrement", o, want, c);
		want = in; addTo(want, 0, part, false, 1); o = in; I::LeIncrement(o, part); same(k + "LeIncrement(length)", o, want, c);
		SecureVector<uint8_t> sv(in.begin(), in.end()); I::BeIncrease8(sv, v); want = in; addTo(want, 0, len, true, vm); sameV(k + "BeIncrease8:secure", sv, want, c);
		std::array<uint64_t, 2> w = { edge(r), edge(r) }, w0 = w; I::LeIncrementW(w); u128 m = ((u128)w0[1] << 64 | w0[0]) + 1;
		expect(w[0] == (uint64_t)m && w[1] == (uint64_t)(m >> 64), k + "LeIncrementW", "%llx %llx", (unsigned long long)w0[1], (unsigned long long)w0[0]);
		uint64_t add = edge(r); w = w0; I::LeIncreaseW(w, add); m = ((u128)w0[1] << 64 | w0[0]) + add;
		expect(w[0] == (uint64_t)m && w[1] == (uint64_t)(m >> 64), k + "LeIncreaseW", "%llx %llx + %llx", (unsigned long long)w0[1], (unsigned long long)w0[0], (unsigned long long)add);
		w = { 7, 7 }; I::LeIncreaseW(w0, w, (size_t)add);
		expect(w[0] == (uint64_t)m && w[1] == (uint64_t)(m >> 64), k + "LeIncreaseW(copy)", "%llx %llx + %llx", (unsigned long long)w0[1], (unsigned long long)w0[0], (unsigned long long)add);
		// in place through the two-array form, as the digests count
		w = w0; I::LeIncreaseW(w, w, (size_t)add);
		expect(w[0] == (uint64_t)m && w[1] == (uint64_t)(m >> 64), k + "LeIncreaseW(in place)", "%llx %llx + %llx", (unsigned long long)w0[1], (unsigned long long)w0[0], (unsigned long long)add);
		want = in; addTo(want, 0, len, true, vm); o = in; I::BeIncrease8(o, o, v); same(k + "BeIncrease8(in place)", o, want, c);
		want = in; addTo(want, 0, len, false, vm); o = in; I::LeIncrease8(o, o, v); same(k + "LeIncrease8(in place)", o, want, c);
		std::array<uint32_t, 2> g = { (uint32_t)edge(r), (uint32_t)edge(r) }, g0 = g; uint32_t add32 = (uint32_t)add; I::LeIncreaseW(g, g, (size_t)add32);
		uint64_t gm = ((uint64_t)g0[1] << 32 | g0[0]) + add32;
		expect(g[0] == (uint32_t)gm && g[1] == (uint32_t)(gm >> 32), k + "LeIncreaseW32(in place)", "%x %x + %x", g0[1], g0[0], add32);
		std::array<uint32_t, 2> h = { (uint32_t)edge(r), (uint32_t)edge(r) }, h0 = h; I::LeIncrementW(h); uint64_t hm = ((uint64_t)h0[1] << 32 | h0[0]) + 1;
		expect(h[0] == (uint32_t)hm && h[1] == (uint32_t)(hm >> 32), k + "LeIncrementW32", "%x %x", h0[1], h0[0]);
	}
}
template<class T> static void words(Rng& r)
{
	typedef IntegerTools I; const unsigned B = sizeof(T) * 8;
	std::string k = strf("word:%u:", B);
	for (int n = 0; n < 60; ++n)
	{
		T a = (T)edge(r), b = r.chance(20) ? a : (T)edge(r), m = r.chance(50) ? (T)~(T)0 : (T)0, z = 0, all = (T)~(T)0;
		std::string c = strf("%llx %llx", (unsigned long long)a, (unsigned long long)b);
#define W1(name, got, want) do { T g1 = (T)(got); expect(g1 == (T)(want), k + name, "%s: %llx", c.c_str(), (unsigned long long)g1); } while (0)
		W1("CMax", I::CMax<T>(a, b), a > b ? a : b); W1("CMin", I::CMin<T>(a, b), a < b ? a : b);
		W1("Max", I::Max<T>(a, b), a > b ? a : b); W1("Min", I::Min<T>(a, b), a < b ? a : b); W1("Abs", I::Abs<T>(a, b), a > b ? a - b : b - a);
		W1("ExpandMask", I::ExpandMask<T>(a), a ? all : z); W1("ExpandTopBit", I::ExpandTopBit<T>(a), (a >> (B - 1)) ? all : z);
		W1("IsEqual", I::IsEqual<T>(a, b), a == b ? all : z); W1("IsZero", I::IsZero<T>(a), a == 0 ? all : z);
		W1("IsLess", I::IsLess<T>(a, b), a < b ? all : z); W1("IsLte", I::IsLte<T>(a, b), a <= b ? all : z);
		W1("Select", I::Select<T>(m, a, b), m ? a : b);
		W1("ValueOrZero", (I::ValueOrZero<T, T>(a, b)), a ? b : z);
		size_t ix = r.below(sizeof(T)); W1("GetByte", I::GetByte<T>(a, ix), (uint8_t)(a >> (8 * (sizeof(T) - 1 - ix))));
		W1("IsPowerOf2", I::IsPowerOf2<T>(a), a != 0 && (a & (T)(a - 1)) == 0);
		T p2 = (T)((T)1 << r.below(B)); W1("ModPowerOf2", (I::ModPowerOf2<T, T>(a, p2)), a % p2);
		W1("SaturatingSubtract", I::SaturatingSubtract(a, b), a > b ? a - b : 0);
		T c0 = a, c1[3] = { a, b, (T)1 }, f0[3] = { 1, 2, 3 }, f1[3] = { 4, 5, 6 }; (void)c0;
		I::ConditionalCopy<T>(a, c1, f0, f1, 3); for (int i = 0; i < 3; ++i) W1("ConditionalCopy", c1[i], a ? f0[i] : f1[i]);
		std::vector<T> zv(5, b); I::ConditionalZeroMem<T>(a, zv, 3); for (int i = 0; i < 5; ++i) W1("ConditionalZeroMem", zv[i], i < 3 && a ? z : b);
		seen(k, (uint64_t)a * 31 + b);
		if (B >= 16)
		{
			std::string hx = I::IntToHex<T>(a); char w[32]; snprintf(w, sizeof w, "%0*llX", (int)B / 4, (unsigned long long)a);
			EQ(k + "IntToHex", hx, std::string(w), "%s: %s", c.c_str(), hx.c_str());
			W1("HexToInt", I::HexToInt<T>(hx, 0), a);
			std::string pre = "zz" + hx; W1("HexToInt(offset)", I::HexToInt<T>(pre, 2), a);
			std::string ds = I::ToString<T>(a); EQ(k + "ToString", ds, std::to_string((unsigned long long)a), "%s", ds.c_str());
			std::string dp = "ab" + ds + "cd"; W1("FromString", I::FromString<T>(dp, 2, ds.size()), a);
			snprintf(w, sizeof w, "%llX", (unsigned long long)a); EQ(k + "ToHex", I::ToHex<T>(a), std::string(w), "%s", c.c_str());
		}
	}
	for (int n = 0; n < 10; ++n)
	{
		uint64_t v = edge(r); uint32_t s32 = (uint32_t)r.below(33), s64 = (uint32_t)r.below(65); uint32_t v32 = (uint32_t)v;
		auto rl32 = [](uint32_t x, unsigned s) { s &= 31; return s ? x << s | x >> (32 - s) : x; }; auto rl64 = [](uint64_t x, unsigned s) { s &= 63; return s ? x << s | x >> (64 - s) : x; };
		std::string c = strf("%llx by %u/%u", (unsigned long long)v, s32, s64);
		EQ("rot:RotL32", I::RotL32(v32, s32), rl32(v32, s32), "%s", c.c_str()); EQ("rot:RotR32", I::RotR32(v32, s32), rl32(v32, 32 - s32), "%s", c.c_str());
		EQ("rot:RotL64", I::RotL64(v, s64), rl64(v, s64), "%s", c.c_str()); EQ("rot:RotR64", I::RotR64(v, s64), rl64(v, 64 - s64), "%s", c.c_str());
		if (s32 % 32) { EQ("rot:RotFL32", I::RotFL32(v32, s32), rl32(v32, s32), "%s", c.c_str()); EQ("rot:RotFR32", I::RotFR32(v32, s32), rl32(v32, 32 - s32), "%s", c.c_str()); }
		if (s64 % 64) { EQ("rot:RotFL64", I::RotFL64(v, s64), rl64(v, s64), "%s", c.c_str()); EQ("rot:RotFR64", I::RotFR64(v, s64), rl64(v, 64 - s64), "%s", c.c_str()); }
		EQ("word:Parity", I::Parity(v), (uint64_t)__builtin_parityll(v), "%llx", (unsigned long long)v);
		size_t len = r.below(66); EQ("word:Crop", I::Crop(v, len), len >= 64 ? v : v & ((1ULL << len) - 1), "%llx %zu", (unsigned long long)v, len);
		{
			Bytes bc = r.bytes(r.range(8, 24)); size_t o = r.below(bc.size() - 7);
#define BC(T, N) { T w; memcpy(&w, bc.data() + o, sizeof w); T g = IO::BitConverter::N(bc, o); EQ("bitconverter:" #N, memcmp(&g, &w, sizeof w), 0, "%s at %zu", hex(bc).c_str(), o); }
			BC(char, ToChar) BC(uint8_t, ToUChar) BC(double, ToDouble) BC(float, ToFloat) BC(int16_t, ToInt16) BC(uint16_t, ToUInt16) BC(int32_t, ToInt32) BC(uint32_t, ToUInt32) BC(int64_t, ToInt64) BC(uint64_t, ToUInt64)
#undef BC
		}
		Bytes h = r.bytes(r.below(30)), hp = h; std::string hs = I::ToHex(h, 0, h.size()); std::string hw; for (auto x : h) hw += strf("%02X", x);
		EQ("hex:ToHex", hs, hw, "%s", hs.c_str());
		if (!h.empty()) same("hex:FromHex", I::FromHex(hs, hs.size()), h, hs);
		std::string s((const char*)h.data(), h.size()); if (!h.empty()) same("hex:FromString", I::FromString(s), h, "");
		Bytes sl = r.bytes(1 + r.below(20)), so(sl.size()), sw(sl.size()); unsigned carry = 0;
		for (size_t i = sl.size(); i-- > 0;) { sw[i] = (uint8_t)(sl[i] << 1 | carry); carry = sl[i] >> 7; }
		uint32_t bit = I::ShiftLeft(sl, so); same("word:ShiftLeft", so, sw, ""); EQ("word:ShiftLeft:carry", bit, carry, "%s", hex(sl).c_str());
		seen("rot", v);
	}
}
// comparison of vectors: any single difference counts, nothing outside the range does
template<class W> static void compare(Rng& r)
{
	typedef IntegerTools I; std::string k = strf("compare:%zu:", sizeof(W) * 8);
	for (int n = 0; n < 30; ++n)
	{
		size_t len = 1 + r.below(70), ao = r.below(9), bo = r.below(9);
		std::vector<W> a(ao + len + 3), b(bo + len + 3); for (auto& x : a) x = (W)r.next(); for (auto& x : b) x = (W)r.next();
		for (size_t i = 0; i < len; ++i) b[bo + i] = a[ao + i];
		std::vector<W> sa(a.begin() + ao, a.begin() + ao + len), sb = sa;
		bool eq = r.chance(40); size_t at = 0; unsigned bit = 0;
		if (!eq) { at = r.chance(30) ? len - 1 : r.below(len); bit = (unsigned)r.below(sizeof(W) * 8); b[bo + at] ^= (W)1 << bit; sb[at] ^= (W)1 << bit; }
		std::string c = strf("%zu elements, %s at %zu bit %u", len, eq ? "equal" : "different", at, bit);
		EQ(k + "Compare", I::Compare(a, ao, b, bo, len), eq, "%s", c.c_str());
		EQ(k + "Verify(offsets)", I::Verify(a, ao, b, bo, len) == 0, eq, "%s", c.c_str());
		EQ(k + "Verify", I::Verify(sa, sb, len) == 0, eq, "%s", c.c_str());
		EQ(k + "MemoryTools::Compare", MemoryTools::Compare(a, ao, b, bo, len), eq, "%s", c.c_str());
		SecureVector<W> ss(sa.begin(), sa.end()); EQ(k + "Compare:secure", I::Compare(ss, 0, b, bo, len), eq, "%s", c.c_str());
		if (sizeof(W) == 1)
		{
			EQ(k + "VerifyRaw", I::VerifyRaw((const uint8_t*)sa.data(), (const uint8_t*)sb.data(), len) == 0, eq, "%s", c.c_str());
			EQ(k + "DiffMask", I::DiffMask<W>(sa, sb, len), eq ? 0 : -1, "%s", c.c_str());
			Bytes d = r.bytes(bo + len + 3), w = d, src = raw(a); bool cond = r.chance(50); if (cond) std::copy(src.begin() + ao, src.begin() + ao + len, w.begin() + bo);
			Bytes o = d; I::CMov(src, ao, o, bo, len, cond); same(k + "CMov", o, w, c);
			o = d; I::CMovRaw(src.data() + ao, o.data() + bo, len, cond); same(k + "CMovRaw", o, w, c);
		}
		seen(k, hash(raw(sb)) ^ at); count(eq ? "equal vectors compared" : "single differences compared");
	}
}

// lanes
template<class L, class W> static void lanes(Rng& r, const char* name)
{
	const size_t N = 32 / sizeof(W) == 8 && sizeof(L) == 16 ? 4 : sizeof(L) / sizeof(W); const unsigned B = sizeof(W) * 8;
	std::string k = std::string("lanes:") + name + ":";
	for (int n = 0; n < 40; ++n)
	{
		std::vector<W> a(N + 6), b(N + 6); for (auto& x : a) x = (W)edge(r); for (auto& x : b) x = r.chance(25) ? a[&x - &b[0]] : (W)edge(r);
		size_t off = r.below(5);
		L A, Bv; A.Load(a, off); Bv.Load(b, off);
		auto chk = [&](const char* op, const L& got, const std::function<W(W, W)>& f, const char* extra = "") {
			std::vector<W> o(N + 4), w(N + 4); for (auto& x : o) x = (W)r.next(); w = o; size_t oo = r.below(5);
			for (size_t i = 0; i < N; ++i) w[oo + i] = f(a[off + i], b[off + i]);
			got.Store(o, oo);
			if (o != w) fail(k + op, "%s %s %s %s gives %s, expected %s", hex(raw(a)).c_str(), op, hex(raw(b)).c_str(), extra, hex(raw(o)).c_str(), hex(raw(w)).c_str());
			seen(k + op, hash(raw(o)));
		};
		const W one = 1, all = (W)~(W)0;
		chk("load", A, [](W x, W) { return x; });
		chk("+", A + Bv, [](W x, W y) { return (W)(x + y); }); chk("-", A - Bv, [](W x, W y) { return (W)(x - y); }); chk("*", A * Bv, [](W x, W y) { return (W)(x * y); });
		chk("^", A ^ Bv, [](W x, W y) { return (W)(x ^ y); }); chk("|", A | Bv, [](W x, W y) { return (W)(x | y); }); chk("&", A & Bv, [](W x, W y) { return (W)(x & y); });
		chk("||", A || Bv, [](W x, W y) { return (W)(x | y); }); chk("&&", A && Bv, [](W x, W y) { return (W)(x & y); });
		chk("~", ~A, [](W x, W) { return (W)~x; }); chk("!", !A, [&](W x, W) { return x == 0 ? all : (W)0; }); chk("AndNot", A.AndNot(Bv), [](W x, W y) { return (W)(~x & y); });
		chk("==", A == Bv, [&](W x, W y) { return x == y ? all : (W)0; }); chk("!=", A != Bv, [&](W x, W y) { return x != y ? all : (W)0; });
		chk(">", A > Bv, [&](W x, W y) { return x > y ? all : (W)0; }); chk("<", A < Bv, [&](W x, W y) { return x < y ? all : (W)0; });
		chk(">=", A >= Bv, [&](W x, W y) { return x >= y ? all : (W)0; }); chk("<=", A <= Bv, [&](W x, W y) { return x <= y ? all : (W)0; });
		{ std::vector<W> bb = b; for (auto& x : b) if (x == 0) x = one; L D; D.Load(b, off); chk("/", A / D, [](W x, W y) { return (W)(x / y); }); chk("%", A % D, [](W x, W y) { return (W)(x % y); });
		  L t; t = A; t /= D; chk("/=", t, [](W x, W y) { return (W)(x / y); }); t = A; t %= D; chk("%=", t, [](W x, W y) { return (W)(x % y); }); b = bb; }
		L t; t = A; t += Bv; chk("+=", t, [](W x, W y) { return (W)(x + y); }); t = A; t -= Bv; chk("-=", t, [](W x, W y) { return (W)(x - y); }); t = A; t *= Bv; chk("*=", t, [](W x, W y) { return (W)(x * y); });
		t = A; t ^= Bv; chk("^=", t, [](W x, W y) { return (W)(x ^ y); }); t = A; t |= Bv; chk("|=", t, [](W x, W y) { return (W)(x | y); }); t = A; t &= Bv; chk("&=", t, [](W x, W y) { return (W)(x & y); });
		t = A; L u = ++t; chk("++x", u, [](W x, W) { return (W)(x + 1); }); chk("++x:value", t, [](W x, W) { return (W)(x + 1); });
		t = A; u = t++; chk("x++", u, [](W x, W) { return x; }); chk("x++:value", t, [](W x, W) { return (W)(x + 1); });
		int s = (int)r.below(B), rs = (int)r.below(B + 1);
		std::string sh = strf("by %d/%d", s, rs);
		auto rl = [B](W x, unsigned q) { q %= B; return q ? (W)(x << q | x >> (B - q)) : x; };
		chk("<<", A << s, [s](W x, W) { return (W)(x << s); }, sh.c_str()); chk(">>", A >> s, [s](W x, W) { return (W)(x >> s); }, sh.c_str());
		t = A; t <<= s; chk("<<=", t, [s](W x, W) { return (W)(x << s); }, sh.c_str()); t = A; t >>= s; chk(">>=", t, [s](W x, W) { return (W)(x >> s); }, sh.c_str());
		chk("Swap", A.Swap(), [](W x, W) { W y = 0; for (size_t i = 0; i < sizeof(W); ++i) y |= (W)((x >> (8 * i)) & 0xFF) << (8 * (sizeof(W) - 1 - i)); return y; });
		{ L q; q = A; chk("Swap(X)", L::Swap(q), [](W x, W) { W y = 0; for (size_t i = 0; i < sizeof(W); ++i) y |= (W)((x >> (8 * i)) & 0xFF) << (8 * (sizeof(W) - 1 - i)); return y; }); }
		L rep; rep.Load((W)b[0]); chk("broadcast", rep, [&](W, W) { return b[0]; }); chk("broadcast()", L((W)b[0]), [&](W, W) { return b[0]; });
		chk("ONE", L::ONE(), [](W, W) { return (W)1; }); chk("ZERO", L::ZERO(), [](W, W) { return (W)0; });
		if constexpr (sizeof(W) == 4)
		{
			chk("RotL32", L::RotL32(A, rs), [&](W x, W) { return rl(x, (unsigned)rs); }, sh.c_str()); chk("RotR32", L::RotR32(A, rs), [&](W x, W) { return rl(x, B - (unsigned)rs); }, sh.c_str());
			t = A; t.RotL32(rs); chk("x.RotL32", t, [&](W x, W) { return rl(x, (unsigned)rs); }, sh.c_str()); t = A; t.RotR32(rs); chk("x.RotR32", t, [&](W x, W) { return rl(x, B - (unsigned)rs); }, sh.c_str());
			chk("ShiftRA", L::ShiftRA(A, s), [s](W x, W) { return (W)((int32_t)x >> s); }, sh.c_str()); chk("ShiftRL", L::ShiftRL(A, s), [s](W x, W) { return (W)(x >> s); }, sh.c_str());
			chk("Negate", L::Negate(A), [](W x, W) { return (W)(0 - x); }); chk("Abs", L::Abs(A), [](W x, W) { return (W)((int32_t)x < 0 ? 0 - x : x); });
			t = A; u = --t; chk("--x", u, [](W x, W) { return (W)(x - 1); }); chk("--x:value", t, [](W x, W) { return (W)(x - 1); });
			t = A; u = t--; chk("x--", u, [](W x, W) { return x; }); chk("x--:value", t, [](W x, W) { return (W)(x - 1); });
			std::vector<W> m(4 * N + 3), o(4 * N + 3); for (auto& x : m) x = (W)r.next(); L q[4]; L::Load4(m, 3, q[0], q[1], q[2], q[3]); 
			// within each 128-bit lane the four rows are transposed
			bool ok = true; for (size_t i = 0; i < 4; ++i) { std::vector<W> row(N); q[i].Store(row, 0); for (size_t j = 0; j < N; ++j) if (row[j] != m[3 + (j % 4) * N + (j / 4) * 4 + i]) ok = false; }
			expect(ok, k + "Load4", "not the transpose");
			L::Store4(o, 3, q[0], q[1], q[2], q[3]); std::fill(m.begin(), m.begin() + 3, 0); expect(o == m, k + "Store4", "does not undo Load4");
		}
		else
		{
			chk("RotL64", L::RotL64(A, rs), [&](W x, W) { return rl(x, (unsigned)rs); }, sh.c_str()); chk("RotR64", L::RotR64(A, rs), [&](W x, W) { return rl(x, B - (unsigned)rs); }, sh.c_str());
			t = A; t.RotL64(rs); chk("x.RotL64", t, [&](W x, W) { return rl(x, (unsigned)rs); }, sh.c_str()); t = A; t.RotR64(rs); chk("x.RotR64", t, [&](W x, W) { return rl(x, B - (unsigned)rs); }, sh.c_str());
		}
	}
}

// memory: byte ranges of containers with elements of any width
template<class VA, class VB> static void memory(Rng& r, const std::string& kind)
{
	typedef MemoryTools M;
	const size_t SA = sizeof(typename VA::value_type), SB = sizeof(typename VB::value_type), SM = SA > SB ? SA : SB;
	std::string k = "memory:" + kind + ":";
	for (int n = 0; n < 24; ++n)
	{
		size_t len = r.chance(30) ? r.below(40) : r.chance(50) ? r.below(300) : 32 * r.below(9) + r.below(3) * SM;
		if (!r.chance(30)) len = len / SM * SM;
		size_t ao = r.below(9), bo = r.below(9), up = (len + SM - 1) / SM * SM;
		Bytes a = r.bytes(ao * SA + up + SA * r.below(4)), b = r.bytes(bo * SB + up + SB * r.below(4));
		if (a.empty()) a = r.bytes(SM); if (b.empty()) b = r.bytes(SM);
		if (len == 0) { a.resize(a.size() + SM); b.resize(b.size() + SM); }
		const VA va = make<VA>(a); a = raw(va);
		std::string c = strf("%zu bytes from element %zu of %zu-byte to element %zu of %zu-byte elements", len, ao, SA, bo, SB);
		auto op = [&](const char* name, size_t l, const std::function<void(VB&)>& f, const std::function<uint8_t(uint8_t, uint8_t)>& g) {
			VB v = make<VB>(b); Bytes w = raw(v); for (size_t i = 0; i < l; ++i) w[bo * SB + i] = g(ao * SA + i < a.size() ? a[ao * SA + i] : 0, w[bo * SB + i]);
			f(v); same(k + name, raw(v), w, c); expect(raw(va) == a, k + name, "the input changed"); seen(k + name, hash(w) ^ l);
		};
		op("Copy", len, [&](VB& v) { M::Copy(va, ao, v, bo, len); }, [](uint8_t x, uint8_t) { return x; });
		op("Move", len, [&](VB& v) { M::Move(va, ao, v, bo, len); }, [](uint8_t x, uint8_t) { return x; });
		op("AND", len, [&](VB& v) { M::AND(va, ao, v, bo, len); }, [](uint8_t x, uint8_t y) { return x & y; });
		op("OR", len, [&](VB& v) { M::OR(va, ao, v, bo, len); }, [](uint8_t x, uint8_t y) { return x | y; });
		op("XOR", len, [&](VB& v) { M::XOR(va, ao, v, bo, len); }, [](uint8_t x, uint8_t y) { return x ^ y; });
		op("Clear", len, [&](VB& v) { M::Clear(v, bo, len); }, [](uint8_t, uint8_t) { return 0; });
		uint8_t val = (uint8_t)r.next();
		op("SetValue", len, [&](VB& v) { M::SetValue(v, bo, len, val); }, [=](uint8_t, uint8_t) { return val; });
		op("CopyFromObject", len, [&](VB& v) { M::CopyFromObject(a.data() + ao * SA, v, bo, len); }, [](uint8_t x, uint8_t) { return x; });
		{ struct Ob { uint8_t b[3]; }; op("CopyFromObject(struct)", len, [&](VB& v) { M::CopyFromObject((const Ob*)(a.data() + ao * SA), v, bo, len); }, [](uint8_t x, uint8_t) { return x; }); }
		op("CopyToObject", len, [&](VB& v) { uint8_t* p = (uint8_t*)v.data() + bo * SB; M::CopyToObject(va, ao, p, len); }, [](uint8_t x, uint8_t) { return x; });
		{ struct Ob { uint32_t b[5]; }; op("CopyToObject(struct)", len, [&](VB& v) { Ob* p = (Ob*)((uint8_t*)v.data() + bo * SB); M::CopyToObject(va, ao, p, len); }, [](uint8_t x, uint8_t) { return x; }); }
		op("CopyRaw", len, [&](VB& v) { M::CopyRaw((const uint8_t*)va.data() + ao * SA, (uint8_t*)v.data() + bo * SB, len); }, [](uint8_t x, uint8_t) { return x; });
		op("XorRaw", len, [&](VB& v) { M::XorRaw((const uint8_t*)va.data() + ao * SA, (uint8_t*)v.data() + bo * SB, len); }, [](uint8_t x, uint8_t y) { return x ^ y; });
		op("ClearRaw", len, [&](VB& v) { M::ClearRaw((uint8_t*)v.data() + bo * SB, len); }, [](uint8_t, uint8_t) { return 0; });
		// whole blocks
		auto blk = [&](const char* name, size_t l, const std::function<void(VB&)>& f, const std::function<uint8_t(uint8_t, uint8_t)>& g) { if (len >= l) op(name, l, f, g); };
#define BLK(w) \
		blk("COPY" #w, w / 8, [&](VB& v) { M::COPY##w(va, ao, v, bo); }, [](uint8_t x, uint8_t) { return x; }); \
		blk("AND" #w, w / 8, [&](VB& v) { M::AND##w(va, ao, v, bo); }, [](uint8_t x, uint8_t y) { return x & y; }); \
		blk("OR" #w, w / 8, [&](VB& v) { M::OR##w(va, ao, v, bo); }, [](uint8_t x, uint8_t y) { return x | y; }); \
		blk("XOR" #w, w / 8, [&](VB& v) { M::XOR##w(va, ao, v, bo); }, [](uint8_t x, uint8_t y) { return x ^ y; }); \
		blk("CLEAR" #w, w / 8, [&](VB& v) { M::CLEAR##w(v, bo); }, [](uint8_t, uint8_t) { return 0; }); \
		blk("SETVAL" #w, w / 8, [&](VB& v) { M::SETVAL##w(v, bo, val); }, [=](uint8_t, uint8_t) { return val; });
		BLK(128) BLK(256) BLK(512)
		blk("XOR1024", 128, [&](VB& v) { M::XOR1024(va, ao, v, bo); }, [](uint8_t x, uint8_t y) { return x ^ y; });
		if (len >= 8)
		{
			uint64_t val64 = 0x1122334455667788ULL, w = val64; size_t l = 1 + r.below(8); memcpy(&w, a.data() + ao * SA, l); M::CopyToValue(va, ao, val64, l); EQ(k + "CopyToValue", val64, w, "%s", c.c_str());
			op("CopyFromValue", l, [&](VB& v) { uint64_t x; memcpy(&x, a.data() + ao * SA, 8); M::CopyFromValue(x, v, bo, l); }, [](uint8_t x, uint8_t) { return x; });
		}
		// overlapping move inside one container
		{ VB v = make<VB>(b); Bytes w = raw(v); size_t e = w.size() / SB; size_t s = r.below(e), d = r.below(e), l = std::min(e - s, e - d) * SB; memmove(w.data() + d * SB, w.data() + s * SB, l); M::Move(v, s, v, d, l); same(k + "Move:overlap", raw(v), w, ""); }
	}
}
static void arrays(Rng& r)
{
	typedef ArrayTools A;
	for (int n = 0; n < 20; ++n)
	{
		Bytes base = r.bytes(r.below(80)), add = r.bytes(r.below(80)), o, w; std::string k = "array:";
		auto cat = [&] { w = base; w.insert(w.end(), add.begin(), add.end()); };
		o = base; cat(); EQ(k + "AppendVector:count", A::AppendVector(add, o), add.size(), "%zu", add.size()); same(k + "AppendVector", o, w, "");
		o = base; EQ(k + "AppendObject:count", A::AppendObject(add.data(), o, add.size()), add.size(), "%zu", add.size()); same(k + "AppendObject", o, w, "");
		std::string s((const char*)add.data(), add.size()); o = base; EQ(k + "AppendString:count", A::AppendString(s, o), s.size(), "%zu", s.size()); same(k + "AppendString", o, w, "");
		uint64_t v = edge(r); add.assign(8, 0); wr(add, 0, 8, false, v); cat(); o = base; EQ(k + "AppendValue:count", A::AppendValue(v, o), 8u, "8"); same(k + "AppendValue", o, w, "");
		add.resize(2); cat(); o = base; A::AppendValue((uint16_t)v, o); same(k + "AppendValue16", o, w, "");
		std::vector<uint32_t> words(r.below(20)); for (auto& x : words) x = (uint32_t)r.next(); add = raw(words); cat(); o = base; EQ(k + "AppendVector32:count", A::AppendVector(words, o), add.size(), "%zu", add.size()); same(k + "AppendVector32", o, w, "");
		same(k + "ToByteArray", A::ToByteArray(words.data(), words.size()), add, "");
		// search, removal
		Bytes small(r.below(30)); for (auto& x : small) x = (uint8_t)r.below(6); uint8_t f = (uint8_t)r.below(7); bool has = std::find(small.begin(), small.end(), f) != small.end();
		EQ(k + "Contains", A::Contains(small, f), has, "%s %u", hex(small).c_str(), f); EQ(k + "Contains(char)", A::Contains((const char*)small.data(), small.size(), (char)f), has, "%s %u", hex(small).c_str(), f);
		o = small; w = small; w.erase(std::remove(w.begin(), w.end(), f), w.end()); EQ(k + "Remove:count", A::Remove(f, o), w.size(), "%s", hex(small).c_str()); same(k + "Remove", o, w, "");
		// strings
		std::string t; for (size_t i = r.below(40); i > 0; --i) t += r.chance(30) ? ',' : (char)('a' + r.below(3));
		std::vector<std::string> parts, got = A::Split(t, ','), got2; { size_t p = 0; while (p < t.size()) { size_t q = t.find(',', p); if (q == std::string::npos) q = t.size(); parts.push_back(t.substr(p, q - p)); p = q + 1; } }
		EQ(k + "Split", got, parts, "'%s'", t.c_str()); A::Split(t, ',', got2); EQ(k + "Split(output)", got2, parts, "'%s'", t.c_str());
		EQ(k + "StringSize", A::StringSize(small.data(), small.size()), (size_t)(std::find(small.begin(), small.end(), 0) - small.begin()), "%s", hex(small).c_str());
		EQ(k + "ToString", A::ToString(std::vector<char>(t.begin(), t.end())), t, "'%s'", t.c_str()); EQ(k + "ToString(array)", A::ToString(t.c_str() ? (char*)t.data() : nullptr, t.size()), t, "'%s'", t.c_str());
		// a shuffle is a permutation
		std::vector<uint32_t> sh(r.below(50)), so; for (size_t i = 0; i < sh.size(); ++i) sh[i] = (uint32_t)(i * 7); so = sh; rt_reset(); rt_det = r.next() | 1; A::RandomShuffle(sh);
		if (so.size() > 20) expect(sh != so, k + "RandomShuffle", "the order did not change"); std::sort(sh.begin(), sh.end()); EQ(k + "RandomShuffle", sh, so, "not a permutation");
		seen(k, hash(o) ^ hash(t) ^ n);
	}
	// absorption into a state
	std::array<uint64_t, 25> st, want; for (auto& x : st) x = r.next(); want = st; size_t w = 1 + r.below(25), off = r.below(20); Bytes in = r.bytes(off + w * 8); for (size_t i = 0; i < w; ++i) want[i] ^= rd(in, off + 8 * i, 8, false);
	A::AbsorbBlock8to64(in, off, st, w * 8); EQ("array:AbsorbBlock8to64", st, want, "%zu words", w);
	Bytes xp = r.bytes(1 + r.below(200)), xw = xp; uint8_t x = (uint8_t)r.next(); for (auto& q : xw) q ^= x; MemoryTools::XorPad(xp, x); same("memory:XorPad", xp, xw, "");
	rt_reset();
}
// each value visits each place equally often
static void shuffle(Rng& r)
{
	typedef ArrayTools A;
	rt_reset(); rt_det = r.next() | 1; unsigned cnt[4][4] = {}; const unsigned N = 400;
	for (unsigned i = 0; i < N; ++i) { std::vector<uint32_t> s = { 0, 1, 2, 3 }; A::RandomShuffle(s); for (int j = 0; j < 4; ++j) ++cnt[s[j]][j]; }
	for (auto& x : cnt) for (auto y : x) expect(y > N / 4 - 55 && y < N / 4 + 55, "array:RandomShuffle:uniform", "%u of %u", y, N);
	seen("shuffle", hash(cnt, sizeof cnt));
	rt_reset();
}

void cases()
{
	if (part("int"))
		for (size_t i = 0; i < reps(6, 60); ++i)
		{
			run(strf("conv:vector#%zu", i), [](Rng& r) { conv<Bytes>(r, "vector"); });
			run(strf("conv:secure#%zu", i), [](Rng& r) { conv<SecureVector<uint8_t>>(r, "secure"); });
			run(strf("blocks#%zu", i), [](Rng& r) { blocks<uint16_t>(r); blocks<uint32_t>(r); blocks<uint64_t>(r); });
			run(strf("counters#%zu", i), [](Rng& r) { counters<uint16_t>(r); counters<uint32_t>(r); counters<uint64_t>(r); counters<size_t>(r); });
			run(strf("words#%zu", i), [](Rng& r) { words<uint8_t>(r); words<uint16_t>(r); words<uint32_t>(r); words<uint64_t>(r); });
			run(strf("compare#%zu", i), [](Rng& r) { compare<uint8_t>(r); compare<uint16_t>(r); compare<uint32_t>(r); compare<uint64_t>(r); });
		}
	if (part("lanes"))
		for (size_t i = 0; i < reps(6, 60); ++i)
			run(strf("lanes#%zu", i), [](Rng& r) { lanes<Numeric::UInt128, uint32_t>(r, "UInt128"); lanes<Numeric::UInt256, uint32_t>(r, "UInt256"); lanes<Numeric::ULong256, uint64_t>(r, "ULong256"); });
	if (part("mem"))
		for (size_t i = 0; i < reps(6, 60); ++i)
			run(strf("memory#%zu", i), [](Rng& r) {
				memory<Bytes, Bytes>(r, "8-8"); memory<Bytes, std::vector<uint64_t>>(r, "8-64"); memory<std::vector<uint64_t>, Bytes>(r, "64-8"); memory<std::vector<uint32_t>, std::vector<uint32_t>>(r, "32-32");
				memory<std::vector<uint16_t>, std::vector<uint16_t>>(r, "16-16"); memory<std::vector<uint64_t>, std::vector<uint64_t>>(r, "64-64"); memory<std::vector<uint32_t>, Bytes>(r, "32-8"); memory<SecureVector<uint8_t>, Bytes>(r, "secure-8"); memory<Bytes, SecureVector<uint8_t>>(r, "8-secure"); });
	if (part("array"))
		for (size_t i = 0; i < reps(6, 60); ++i) run(strf("arrays#%zu", i), arrays);
	if (part("array")) for (size_t i = 0; i < reps(1, 4); ++i) run(strf("shuffle#%zu", i), shuffle);
}
